// Container driver: vector, valarray, map, string. See drv_elem.h.
#define NANOSTL_IMPLEMENTATION
#include "drv_elem.h"

namespace {
// ------------------------------------------------------------------ sequences
template <class C> struct SeqExtra {  // what vector has and valarray lacks
  typedef typename C::value_type T;
  static void ctorn(void *o, long) { new (o) C(); }
  static void push(C &c, const T &v) { c.push_back(v); }
  static void pop(C &c) { c.pop_back(); }
  static const T &at(C &c, long i) { return c.at(i); }
  static const T &cat(const C &c, long i) { return c.at(i); }
  static void sin(C &, C &) {}
};
template <class T> struct SeqExtra<nanostl::valarray<T> > {
  typedef nanostl::valarray<T> C;
  static void ctorn(void *o, long n) { new (o) C((nanostl::size_type)n); }
  static void push(C &c, const T &v) { const T *p = &v; c.assign(p, p + 1); }  // becomes [v]
  static void pop(C &c) { c.erase(c.end() - 1); }
  static const T &at(C &c, long i) { return c[i]; }
  static const T &cat(const C &c, long i) { return c[i]; }
  static void sin(C &, C &) {}
};
template <class C> struct SinOf { static void run(C &, C &) {} };
template <> struct SinOf<nanostl::valarray<double> > {
  static void run(nanostl::valarray<double> &to, nanostl::valarray<double> &from) { to = nanostl::sin(from); }
};

template <class T> struct FillOf {
  template <class I> static void run(I b, I e, const T &t) { nanostl::fill(b, e, t); }
};
template <class T, class A> struct FillOf<nanostl::vector<T, A> > {  // not even comparable: nothing but assignment
  template <class I> static void run(I b, I e, const nanostl::vector<T, A> &t) { for (; b != e; ++b) *b = t; }
};

template <class C> int seq_op(int op, void *o, void *p, long a, long b, long *out) {
  typedef typename C::value_type T;
  typedef SeqExtra<C> X;
  C *c = (C *)o, *d = (C *)p;
  return guard([&] {
    switch (op) {
      case V_CTOR: new (o) C(); break;
      case V_COPY: new (o) C(*(const C *)d); break;
      case V_CTORN: X::ctorn(o, a); break;
      case V_DTOR: c->~C(); break;
      case V_PUSH: { T t(Tr<T>::make(a)); X::push(*c, t); break; }
      case V_PUSHSELF: X::push(*c, (*c)[a]); break;
      case V_RESIZE: c->resize(a); break;
      case V_POP: X::pop(*c); break;
      case V_ERASE: *out = c->erase(c->begin() + a) - c->begin(); break;
      case V_CLEAR: c->clear(); break;
      case V_ASSIGN: c->assign(d->begin() + a, d->begin() + b); break;
      case V_EQ: { C &r = (*c = *(const C *)d); *out = &r == c; break; }
      case V_SWAP: c->swap(*d); break;
      case V_SET: { T t(Tr<T>::make(b)); (*c)[a] = t; break; }
      case V_FILL: { T t(Tr<T>::make(a)); FillOf<T>::run(c->begin(), c->end(), t); break; }
      case V_SIN: SinOf<C>::run(*c, *d); break;
    }
  });
}
template <class C> int seq_read(void *o, int how, long *buf, long max, long *size, long *cap, long *empty, void **data) {
  typedef typename C::value_type T;
  C &c = *(C *)o;
  const C &k = c;
  return guard([&] {
    *size = (long)k.size();
    *cap = (long)k.capacity();
    *empty = k.empty();
    *data = (void *)c.data();
    if (*size < 0 || *size > max) return;
    long n = 0;
    switch (how % 5) {
      case 0: for (long i = 0; i < *size; i++) buf[n++] = Tr<T>::get(c[i]); break;
      case 1: for (long i = 0; i < *size; i++) buf[n++] = Tr<T>::get(k[i]); break;
      case 2: for (typename C::iterator i = k.begin(); i != k.end() && n < max; ++i) buf[n++] = Tr<T>::get(*i); break;
      case 3: for (long i = 0; i < *size; i++) buf[n++] = Tr<T>::get(SeqExtra<C>::at(c, i)); break;
      case 4: for (long i = 0; i < *size; i++) buf[n++] = Tr<T>::get(how & 8 ? SeqExtra<C>::cat(k, i) : c.data()[i]); break;
    }
    if (n != *size) *size = -1 - n;
  });
}

// ------------------------------------------------------------------------ maps
template <class K, class V> struct MapD {
  typedef nanostl::map<K, V> M;
  typedef typename M::iterator It;
  static int op(int op, void *o, void *p, long a, long b, long *out) {
    M *m = (M *)o;
    return guard([&] {
      switch (op) {
        case M_CTOR: new (o) M(); break;
        case M_COPY: new (o) M(*(const M *)p); break;
        case M_DTOR: m->~M(); break;
        case M_INSERT: {
          typename M::value_type kv(Tr<K>::make(a), Tr<V>::make(b));
          nanostl::pair<It, bool> r = m->insert(kv);
          out[0] = r.second;
          out[1] = Tr<K>::get(r.first->first);
          out[2] = Tr<V>::get((*r.first).second);
          break;
        }
        case M_INDEX: { K k(Tr<K>::make(a)); out[0] = Tr<V>::get((*m)[k]); break; }
        case M_SET: { K k(Tr<K>::make(a)); V v(Tr<V>::make(b)); (*m)[k] = v; break; }
        case M_FIND: case M_UPPER: {
          const M &cm = *m;
          K k(Tr<K>::make(a));
          It i = op == M_FIND ? cm.find(k) : cm.upper_bound(k);
          It e = b ? cm.end() : m->end();
          out[0] = i == e;
          if (out[0] == (i != e)) { out[0] = -1; break; }
          if (out[0] != (e == i)) { out[0] = -2; break; }
          if (out[0] != i.isEnd()) { out[0] = -3; break; }
          if (!out[0]) { out[1] = Tr<K>::get(i->first); out[2] = Tr<V>::get(i->second); }
          break;
        }
        case M_EQ: { M &r = (*m = *(const M *)p); out[0] = &r == m; break; }
        case M_EMPTY: out[0] = ((const M *)m)->empty(); break;
      }
    });
  }
  static int read(void *o, long *ks, long *vs, long max, long *n, const void **nodes) {
    M &m = *(M *)o;
    return guard([&] {
      *n = 0;
      It prev;
      for (It i = m.begin(); i != m.end(); ++i) {
        if (*n && (i == prev || !(i != prev))) { *n = -1; return; }
        prev = i;
        if (*n >= max) { *n = max + 1; return; }
        ks[*n] = Tr<K>::get(i->first);
        vs[*n] = Tr<V>::get(i->second);
        if (nodes) nodes[*n] = &*i;
        ++*n;
      }
    });
  }
  static int peek(const void *node, long *k, long *v) {
    const typename M::value_type *p = (const typename M::value_type *)node;
    return guard([&] { *k = Tr<K>::get(p->first); *v = Tr<V>::get(p->second); });
  }
};
}  // namespace

extern "C" {
#define VSW(F, ...)                                                     \
  switch (ty) {                                                         \
    case VT_ELEM: return F<nanostl::vector<Elem> >(__VA_ARGS__);        \
    case VT_INT: return F<nanostl::vector<int> >(__VA_ARGS__);          \
    case VT_STR: return F<nanostl::vector<Str> >(__VA_ARGS__);          \
    case VT_VEC: return F<nanostl::vector<VecE> >(__VA_ARGS__);         \
    case VA_ELEM: return F<nanostl::valarray<Elem> >(__VA_ARGS__);      \
    case VA_DBL: return F<nanostl::valarray<double> >(__VA_ARGS__);     \
    case VT_BYTE: return F<nanostl::vector<unsigned char> >(__VA_ARGS__); \
  }                                                                     \
  return RC_OTHER;
unsigned long drv_vec_sizeof(int ty) {
  switch (ty) {
    case VT_ELEM: return sizeof(nanostl::vector<Elem>);
    case VT_INT: return sizeof(nanostl::vector<int>);
    case VT_STR: return sizeof(nanostl::vector<Str>);
    case VT_VEC: return sizeof(nanostl::vector<VecE>);
    case VA_ELEM: return sizeof(nanostl::valarray<Elem>);
    case VT_BYTE: return sizeof(nanostl::vector<unsigned char>);
  }
  return sizeof(nanostl::valarray<double>);
}
int drv_vec_op(int ty, int op, void *o, void *p, long a, long b, long *out) { VSW(seq_op, op, o, p, a, b, out) }
int drv_vec_read(int ty, void *o, int how, long *buf, long max, long *size, long *cap, long *empty, void **data) {
  VSW(seq_read, o, how, buf, max, size, cap, empty, data)
}

#define MSW(call)                                        \
  switch (ty) {                                          \
    case MT_ELEM: return MapD<Elem, Elem>::call;         \
    case MT_INT: return MapD<int, int>::call;            \
    case MT_STR: return MapD<Str, Elem>::call;           \
  }                                                      \
  return RC_OTHER;
unsigned long drv_map_sizeof(int ty) {
  return ty == MT_ELEM ? sizeof(nanostl::map<Elem, Elem>) : ty == MT_INT ? sizeof(nanostl::map<int, int>) : sizeof(nanostl::map<Str, Elem>);
}
int drv_map_op(int ty, int o_, void *o, void *p, long a, long b, long *out) { MSW(op(o_, o, p, a, b, out)) }
int drv_map_read(int ty, void *o, long *ks, long *vs, long max, long *n, const void **nodes) { MSW(read(o, ks, vs, max, n, nodes)) }
int drv_map_peek(int ty, const void *node, long *k, long *v) { MSW(peek(node, k, v)) }

unsigned long drv_str_sizeof(int stream) { return stream ? sizeof(nanostl::stringstream) : sizeof(Str); }
int drv_str_op(int op, void *o, void *p, const char *txt, long a, long b, long *out) {
  Str *s = (Str *)o, *t = (Str *)p;
  typedef nanostl::stringstream SS;
  SS *ss = (SS *)o, *st = (SS *)p;
  return guard([&] {
    switch (op) {
      case S_CTOR: new (o) Str(); break;
      case S_CSTR: new (o) Str(txt); break;
      case S_RANGE: new (o) Str(txt + a, txt + b); break;
      case S_COUNT: new (o) Str(txt + a, (Str::size_type)(b - a)); break;
      case S_COPY: new (o) Str(*(const Str *)t); break;
      case S_DTOR: s->~Str(); break;
      case S_APPEND: { Str &r = (*s += *t); out[0] = &r == s; break; }
      case S_PLUS: new (o) Str(*(const Str *)t + *(const Str *)txt); break;
      case S_EQ: { Str &r = (*s = *(const Str *)t); out[0] = &r == s; break; }
      case S_CLEAR: s->clear(); break;
      case S_ERASE: out[0] = s->erase(&(*s)[0] + a) - &(*s)[0]; break;
      case S_SET: if (a & 1) (*s)[b] = *txt; else s->at(b) = *txt; break;
      case S_CMP: {
        const Str &x = *s, &y = *t;
        int c = x.compare(y);
        out[0] = (c < 0 ? -1 : c > 0);
        out[1] = (x == y) | (x != y) << 1 | (x < y) << 2 | (x > y) << 3;
        break;
      }
      case S_CMPC: {
        const Str &x = *s;
        int c = x.compare(txt);
        out[0] = (c < 0 ? -1 : c > 0);
        out[1] = (x == txt) | (x != txt) << 1 | (x < txt) << 2 | (x > txt) << 3;
        break;
      }
      case S_TOSTR: new (o) Str(nanostl::to_string((int)a)); break;
      case S_TOSTR64: new (o) Str(nanostl::to_string((nanostl::int64_t)a)); break;
      case S_TOSTRU: new (o) Str(nanostl::to_string((unsigned int)a)); break;
      case S_TOSTRU64: new (o) Str(nanostl::to_string((nanostl::uint64_t)a)); break;
      case S_TOSTRF: { float f; int w = (int)a; __builtin_memcpy((void *)&f, (void *)&w, 4); new (o) Str(nanostl::to_string(f)); break; }
      case S_TOSTRD: { double f; __builtin_memcpy((void *)&f, (void *)&a, 8); new (o) Str(nanostl::to_string(f)); break; }
      case S_STOD: { double f = nanostl::stod(*s); long w; __builtin_memcpy((void *)&w, (void *)&f, 8); out[0] = w; break; }
      case S_STOF: { float f = nanostl::stof(*s); int w; __builtin_memcpy((void *)&w, (void *)&f, 4); out[0] = w; break; }
      case SS_CTOR: new (o) SS(); break;
      case SS_DTOR: ss->~SS(); break;
      case SS_PUT: { SS &r = (*ss << *(const Str *)p); out[0] = &r == ss; break; }
      case SS_CLEAR: ss->clear(); break;
      case SS_MOVE: *ss = nanostl::move(*st); break;
      case SS_STR: ss->str() += *t; break;
    }
  });
}
int drv_str_read(int stream, void *o, int how, char *buf, long max, long *size, long *len, long *empty) {
  return guard([&] {
    Str &s = stream ? ((nanostl::stringstream *)o)->str() : *(Str *)o;
    const Str &k = s;
    *size = (long)k.size();
    *len = (long)k.length();
    *empty = k.empty();
    if (*size < 0 || *size >= max) return;
    const char *c = k.c_str();
    for (long i = 0; i <= *size; i++) switch (how % 4) {  // with the terminator
      case 0: buf[i] = c[i]; break;
      case 1: buf[i] = i < *size ? k[i] : c[i]; break;
      case 2: buf[i] = i < *size ? s.at(i) : c[i]; break;
      case 3: buf[i] = i < *size ? k.at(i) : c[i]; break;
    }
  });
}
}
