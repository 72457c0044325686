// Container driver: tuple, pair, variant. See drv_elem.h.
#include "drv_elem.h"

namespace {
// ----------------------------------------------------------------- tuple and pair
struct Empty0 {};
struct Empty1 {};
inline bool operator==(const Empty0 &, const Empty0 &) { return true; }
inline bool operator<(const Empty0 &, const Empty0 &) { return false; }
inline bool operator==(const Empty1 &, const Empty1 &) { return true; }
inline bool operator<(const Empty1 &, const Empty1 &) { return false; }
template <> struct Tr<Empty0> { static Empty0 make(long) { return Empty0(); } static long get(const Empty0 &) { return 0; } };
template <> struct Tr<Empty1> { static Empty1 make(long) { return Empty1(); } static long get(const Empty1 &) { return 0; } };

// another type an element can be made from, and assigned from
template <class T> struct Src { typedef T type; };
template <int N> struct Src<ElemT<N> > { typedef FromL type; };
template <> struct Src<long> { typedef int type; };
template <> struct Tr<FromL> { static FromL make(long v) { FromL f = {v}; return f; } };

template <unsigned long... I> struct Ix {};
template <unsigned long N, unsigned long... I> struct MkIx : MkIx<N - 1, N - 1, I...> {};
template <unsigned long... I> struct MkIx<0, I...> { typedef Ix<I...> type; };

template <class T> struct TupD;
template <class... Ts> struct TupD<nanostl::tuple<Ts...> > {
  typedef nanostl::tuple<Ts...> T;
  typedef nanostl::tuple<typename Src<Ts>::type...> S;
  typedef typename MkIx<sizeof...(Ts)>::type IX;
  enum { N = sizeof...(Ts) };
  static void from(void *o, const Ts &... t) { new (o) T(t...); }
  template <unsigned long... I> static void values(void *o, long a, long how, Ix<I...>) {
    switch (how & 3) {
      case 0: new (o) T(Tr<Ts>::make(a + (long)I)...); break;
      case 1: from(o, Tr<Ts>::make(a + (long)I)...); break;
      case 2: new (o) T(tao::make_tuple(Tr<Ts>::make(a + (long)I)...)); break;
      case 3: { const T t(Tr<Ts>::make(a + (long)I)...); new (o) T(t); break; }
    }
  }
  template <unsigned long... I> static S src(long a, Ix<I...>) { return S(Tr<typename Src<Ts>::type>::make(a + (long)I)...); }
  template <unsigned long... I> static void read(const T &t, long *out, Ix<I...>) {
    int d[] = {(out[I] = Tr<Ts>::get(tao::get<I>(t)), 0)...};
    (void)d;
  }
  template <unsigned long... I> static void access(T &t, long *out, Ix<I...>) {  // all forms give the same elements
    const T &c = t;
    bool same = true;
    int d[] = {(out[I] = Tr<Ts>::get(tao::get<I>(c)), 0)...};
    int e[] = {(same = same && &tao::get<I>(t) == &tao::get<I>(c) && is(tao::get<I>(nanostl::move(t)), &tao::get<I>(c)) && is(tao::get<I>(nanostl::move(c)), &tao::get<I>(c)), 0)...};
    (void)d;
    (void)e;
    if (!same) sim_c_violation("tuple-access", "the forms of get<I> give different elements");
    if (!inside(t, &tao::get<I>(c)...)) sim_c_violation("tuple-access", "get<I> gives something that is not in the tuple");
  }
  template <class U> static bool is(const U &u, const U *p) { return &u == p; }
  template <class... P> static bool inside(T &t, P... p) {
    bool ok = true;
    int d[] = {(ok = ok && (char *)p >= (char *)&t && (char *)(p + 1) <= (char *)(&t + 1), 0)...};
    (void)d;
    return ok;
  }
  template <unsigned long... I> static void set(T &t, long i, long v, Ix<I...>) {
    int d[] = {(i == (long)I ? (void)(tao::get<I>(t) = Tr<Ts>::make(v)) : (void)0, 0)...};
    (void)d;
  }
  template <unsigned long I, class U> static long out1(T &t) {
    U u(tao::get<I>(nanostl::move(t)));
    return Tr<U>::get(u);
  }
  template <unsigned long... I> static long moveout(T &t, long i, Ix<I...>) {
    long v = -1;
    int d[] = {(i == (long)I ? (void)(v = out1<I, Ts>(t)) : (void)0, 0)...};
    (void)d;
    return v;
  }
  template <unsigned long... I> static void tie(T &t, long how, long *out, Ix<I...> ix) {
    T loc;
    if (how & 1) tao::tie(tao::get<I>(loc)...) = nanostl::move(t);
    else tao::tie(tao::get<I>(loc)...) = (const T &)t;
    read(loc, out, ix);
  }
  template <unsigned long... I> static bool fwd(T &t, const S &s, Ix<I...>) {
    auto f = tao::forward_as_tuple(tao::get<I>(t)...);
    bool ok = true;
    int d[] = {(ok = ok && &tao::get<I>(f) == &tao::get<I>(t), 0)...};
    (void)d;
    f = s;
    return ok;
  }
  template <class R, unsigned long... I> static void cat(const R &r, long *out, Ix<I...>) {
    static_assert(tao::tuple_size<R>::value == 2 * N, "tuple_cat");
    int d[] = {(out[I] = Tr<Ts>::get(tao::get<I>(r)), out[N + I] = Tr<Ts>::get(tao::get<N + I>(r)), 0)...};
    (void)d;
  }
  static int op(int op, void *o, void *p, long a, long b, long *out) {
    T *x = (T *)o, *y = (T *)p;
    IX ix;
    return guard([&] {
      switch (op) {
        case T_CTOR: new (o) T(); break;
        case T_VALUES: values(o, a, b, ix); break;
        case T_COPY: new (o) T(*(const T *)y); break;
        case T_MOVE: new (o) T(nanostl::move(*y)); break;
        case T_CONV: { S s(src(a, ix)); if (b & 1) new (o) T((const S &)s); else new (o) T(nanostl::move(s)); break; }
        case T_DTOR: x->~T(); break;
        case T_ASSIGN: { T &r = (*x = *(const T *)y); out[0] = &r == x; break; }
        case T_MOVEASSIGN: { T &r = (*x = nanostl::move(*y)); out[0] = &r == x; break; }
        case T_CONVASSIGN: { S s(src(a, ix)); T &r = (b & 1) ? (*x = (const S &)s) : (*x = nanostl::move(s)); out[0] = &r == x; break; }
        case T_SETONE: set(*x, b, a, ix); break;
        case T_SWAP: if (a & 1) x->swap(*y); else { using nanostl::swap; swap(*x, *y); } break;
        case T_CMP: { const T &s = *x, &t = *y; out[0] = REL6(s, t); break; }
        case T_TIE: tie(*x, b, out, ix); break;
        case T_FWD: out[0] = fwd(*x, src(a, ix), ix); break;
        case T_CAT:
          if (b & 1) cat(tao::tuple_cat((const T &)*x, nanostl::tuple<>(), (const T &)*y), out, ix);
          else cat(tao::tuple_cat(*x, *y), out, ix);
          break;
        case T_MOVEOUT: out[0] = moveout(*x, b, ix); break;
      }
    });
  }
  static void get(void *o, long *vals) { access(*(T *)o, vals, IX()); }
};
template <class A, class B> struct TupD<nanostl::pair<A, B> > {
  typedef nanostl::pair<A, B> T;
  static int op(int op, void *o, void *p, long a, long b, long *out) {
    T *x = (T *)o, *y = (T *)p;
    return guard([&] {
      switch (op) {
        case T_CTOR: new (o) T(); break;
        case T_VALUES: { A s(Tr<A>::make(a)); B t(Tr<B>::make(a + 1)); if (b & 1) new (o) T(s, t); else new (o) T(nanostl::make_pair(s, t)); break; }
        case T_COPY: new (o) T(*(const T *)y); break;
        case T_MOVE: new (o) T(nanostl::move(*y)); break;
        case T_DTOR: x->~T(); break;
        case T_ASSIGN: { T &r = (*x = *(const T *)y); out[0] = &r == x; break; }
        case T_MOVEASSIGN: { T &r = (*x = nanostl::move(*y)); out[0] = &r == x; break; }
        case T_SETONE: if (b & 1) x->second = Tr<B>::make(a); else x->first = Tr<A>::make(a); break;
        case T_SWAP: { using nanostl::swap; swap(*x, *y); break; }
        case T_CMP: { const T &s = *x, &t = *y; out[0] = (long)(s == t) | (long)!(s == t) << 1 | (long)(s < t) << 2 | (long)(t < s) << 3 | (long)!(t < s) << 4 | (long)!(s < t) << 5; break; }
      }
    });
  }
  static void get(void *o, long *vals) {
    const T &c = *(T *)o;
    vals[0] = Tr<A>::get(c.first);
    vals[1] = Tr<B>::get(c.second);
  }
};
typedef nanostl::tuple<Elem, long, Elem2> Tup0;
typedef nanostl::tuple<ElemM, Str, ElemT<5> > Tup1;
typedef nanostl::tuple<Empty0, Elem, Empty1, ElemT<11>, long> Tup2;
typedef nanostl::tuple<ElemT<7> > Tup3;
typedef nanostl::tuple<Elem, ElemT<6>, ElemM, ElemT<8>, ElemT<5> > Tup4;
typedef nanostl::tuple<Odd<1>, long, Odd<0> > Tup5;
typedef nanostl::pair<Elem, Str> Pair0;
typedef nanostl::pair<long, ElemM> Pair1;
typedef nanostl::pair<Odd<1>, Odd<1> > Pair2;

// ------------------------------------------------------------------------ variant
typedef nanostl::variant<Elem, int, Str, Elem2> W4;
typedef nanostl::variant<Elem, int, Str, Elem2, ElemM, ElemT<5>, ElemT<6>, ElemT<7>, ElemT<8>, ElemT<9>, ElemT<10>, ElemT<11>, ElemT<12>, ElemT<13>, ElemT<14>, double> W16;
typedef nanostl::variant<Elem, int, long, ElemT<5> > W4A;  // throwing move construction
typedef nanostl::variant<Elem, int, Odd<0>, ElemT<6> > W4B;  // throwing move assignment
#define ALTS4(X) X(0) X(1) X(2) X(3)
#define ALTS16(X) ALTS4(X) X(4) X(5) X(6) X(7) X(8) X(9) X(10) X(11) X(12) X(13) X(14) X(15)
template <class W, int K> struct Alt { typedef typename nonstd::variant_alternative<K, W>::type type; };
template <class W> struct Visit1 {
  template <class T> long operator()(const T &t) const { return Tr<T>::get(t) * 16 + (long)W::template index_of<T>(); }
};
template <class W> struct Visit2 {
  const void **a, **b;
  template <class T, class U> long operator()(const T &t, const U &u) const {
    *a = &t; *b = &u;
    return (long)W::template index_of<T>() * 16 + (long)W::template index_of<U>();
  }
};
template <class W> struct Visit3 {
  const void **at;
  template <class T, class U, class V> long operator()(const T &t, const U &u, const V &v) const {
    at[0] = &t; at[1] = &u; at[2] = &v;
    return ((long)W::template index_of<T>() * 16 + (long)W::template index_of<U>()) * 16 + (long)W::template index_of<V>() + 4096 * (Tr<T>::get(t) + 3 * Tr<U>::get(u) + 5 * Tr<V>::get(v));
  }
};
// elements can also be made from two arguments
template <class W, int K, class T> struct Two {
  static T &emp(W *w, long v, long) { return w->template emplace<T>(Tr<T>::make(v)); }
  static void ctor(void *o, long v, long) { new (o) W(nonstd::in_place_index<K>, Tr<T>::make(v)); }
};
template <class W, int K, int N> struct Two<W, K, ElemT<N> > {
  typedef ElemT<N> T;
  static T &emp(W *w, long v, long how) { return how & 4 ? w->template emplace<K>(v - 7, 7L) : w->template emplace<T>(v - 7, 7L); }
  static void ctor(void *o, long v, long how) {
    if (how & 4) new (o) W(nonstd::in_place_index<K>, v - 7, 7L);
    else new (o) W(nonstd::in_place_type<T>, v - 7, 7L);
  }
};
template <class W, int K> struct WAlt {
  typedef typename Alt<W, K>::type T;
  static void ctor(void *o, long v, long how) {
    if (how & 8) { Two<W, K, T>::ctor(o, v, how); return; }
    T t(Tr<T>::make(v));
    switch (how % 8) {
      case 0: new (o) W(t); break;
      case 1: new (o) W(nanostl::move(t)); break;
      case 2: new (o) W(nonstd::in_place_type<T>, t); break;
      case 3: new (o) W(nonstd::in_place_index<K>, nanostl::move(t)); break;
      case 4: new (o) W(nonstd::in_place_index<K>, (const T &)t); break;
      case 5: new (o) W(nonstd::in_place_type<T>, nanostl::move(t)); break;
      case 6: new (o) W((const T &)t); break;
      case 7: { W w(nanostl::move(t)); new (o) W(nanostl::move(w)); break; }
    }
  }
  static void set(W *w, long v, long how, long *out) {
    T t(Tr<T>::make(v));
    W &r = (how & 1) ? (*w = (const T &)t) : (*w = nanostl::move(t));
    out[0] = &r == w;
  }
  static void own(W *w, long *out) {
    W &r = (*w = nanostl::get<T>((const W &)*w));
    out[0] = &r == w;
  }
  static void emp(W *w, long v, long how, long *out) {
    if (how & 8) { out[0] = &Two<W, K, T>::emp(w, v, how) == nanostl::get_if<T>(w); return; }
    T t(Tr<T>::make(v));
    const void *r;
    switch (how & 3) {
      case 0: { T &q = w->template emplace<K>(nanostl::move(t)); r = &q; break; }
      case 1: { T &q = w->template emplace<T>(t); r = &q; break; }
      case 2: { T &q = w->template emplace<T>(nanostl::move(t)); r = &q; break; }
      default: { T &q = w->template emplace<K>((const T &)t); r = &q; break; }
    }
    out[0] = r == (void *)nanostl::get_if<T>(w);
  }
  // do all the ways to ask agree that w holds, or does not hold, this alternative?
  static bool asked(W &w, bool holds) {
    const W &c = w;
    if (nonstd::holds_alternative<T>(c) != holds) return false;
    if ((nanostl::get_if<T>(&w) != 0) != holds || (nanostl::get_if<T>(&c) != 0) != holds ||
        (nanostl::get_if<K>(&w) != 0) != holds || (nanostl::get_if<K>(&c) != 0) != holds) return false;
    if (holds) {
      const T *p = nanostl::get_if<T>(&c);
      if (nanostl::get_if<T>(&w) != p || nanostl::get_if<K>(&w) != p || nanostl::get_if<K>(&c) != p) return false;
      if (&nanostl::get<T>(w) != p || &nanostl::get<T>(c) != p || &nanostl::get<K>(w) != p || &nanostl::get<K>(c) != p) return false;
      const T &r1 = nanostl::get<T>(nanostl::move(w)), &r2 = nanostl::get<K>(nanostl::move(w));
      return &r1 == p && &r2 == p;
    }
    return true;
  }
  static long val(W &w) { return Tr<T>::get(nanostl::get<K>((const W &)w)); }
  static void movein(W &w, long *out) { T t(nanostl::get<T>(nanostl::move(w))); out[0] = Tr<T>::get(t); }
};
template <class W> void visit3(const W &, const W &, const void *, const void *, long *) {}
inline void visit3(const W4 &a, const W4 &b, const void *pa, const void *pb, long *out) {
  const void *at[3] = {0, 0, 0};
  Visit3<W4> v = {at};
  out[3] = nonstd::visit(v, a, b, a);
  out[2] = out[2] && at[0] == pa && at[1] == pb && at[2] == pa;
}
// four and five variants at once, of numbers; bit i of x: which alternative
typedef nanostl::variant<int, long> WN;
struct VisitN {
  static long one(int v) { return v * 2; }
  static long one(long v) { return v * 2 + 1; }
  template <class A, class B, class C, class D> long operator()(const A &a, const B &b, const C &c, const D &d) const { return one(a) + 100 * one(b) + 10000 * one(c) + 1000000 * one(d); }
  template <class A, class B, class C, class D, class E> long operator()(const A &a, const B &b, const C &c, const D &d, const E &e) const { return (*this)(a, b, c, d) + 100000000 * one(e); }
};
inline WN wn(long x, int i) { return x >> i & 1 ? WN((long)(x % 7 + i)) : WN((int)(x % 7 + i)); }
inline void visitn(long x, long *out) {
  const WN a = wn(x, 0), b = wn(x, 1), c = wn(x, 2), d = wn(x, 3), e = wn(x, 4);
  out[0] = nonstd::visit(VisitN(), a, b, c, d);
  out[1] = nonstd::visit(VisitN(), a, b, c, d, e);
}
#define WFN(W, ALTS)                                                                                                    \
  int wop(W *, int op, void *o, void *p, long a, long b, long how, long *out) {                                         \
    W *w = (W *)o, *x = (W *)p;                                                                                         \
    return guard([&] {                                                                                                  \
      switch (op) {                                                                                                     \
        case W_CTOR: new (o) W(); break;                                                                                \
        case W_VALUE: switch (a) { ALTS(WCTOR) } break;                                                                 \
        case W_COPY: new (o) W(*(const W *)x); break;                                                                   \
        case W_MOVE: new (o) W(nanostl::move(*x)); break;                                                               \
        case W_DTOR: w->~W(); break;                                                                                    \
        case W_ASSIGN: { W &r = (*w = *(const W *)x); out[0] = &r == w; break; }                                        \
        case W_MOVEASSIGN: { W &r = (*w = nanostl::move(*x)); out[0] = &r == w; break; }                                \
        case W_SETVAL: switch (a) { ALTS(WSET) } break;                                                                 \
        case W_EMPLACE: switch (a) { ALTS(WEMP) } break;                                                                \
        case W_SWAP: if (how & 1) w->swap(*x); else { using nanostl::swap; swap(*w, *x); } break;                       \
        case W_CMP: { const W &s = *w, &t = *x; out[0] = REL6(s, t); break; }                                           \
        case W_MOVEOUT: switch (a) { ALTS(WMOVEOUT) } break;                                                            \
        case W_OWN: switch (a) { ALTS(WOWN) } break;                                                                     \
        case W_VISIT: {                                                                                                 \
          const W &s = *w, &t = *x;                                                                                     \
          out[0] = nonstd::visit(Visit1<W>(), s);                                                                       \
          const void *pa = 0, *pb = 0;                                                                                  \
          Visit2<W> v2 = {&pa, &pb};                                                                                    \
          out[1] = nonstd::visit(v2, s, t);                                                                             \
          out[2] = pa == wptr(*w) && pb == wptr(*x);                                                                    \
          visit3(s, t, pa, pb, out); visitn(a, out + 4);                                                                  \
          break;                                                                                                        \
        }                                                                                                               \
      }                                                                                                                 \
    });                                                                                                                 \
  }                                                                                                                     \
  void wget(W *w, long *index, long *val, int *valueless) {                                                             \
    const W &c = *w;                                                                                                    \
    *index = (long)c.index();                                                                                           \
    *valueless = c.valueless_by_exception();                                                                            \
    bool ok = true;                                                                                                     \
    ALTS(WASK)                                                                                                          \
    if (!ok) { *index = -99; return; }                                                                                  \
    switch (*index) { ALTS(WVAL) }                                                                                      \
  }
#define WCTOR(K) case K: WAlt<W, K>::ctor(o, b, how); break;
#define WSET(K) case K: WAlt<W, K>::set(w, b, how, out); break;
#define WEMP(K) case K: WAlt<W, K>::emp(w, b, how, out); break;
#define WMOVEOUT(K) case K: WAlt<W, K>::movein(*w, out); break;
#define WOWN(K) case K: WAlt<W, K>::own(w, out); break;
#define WASK(K) ok = ok && WAlt<W, K>::asked(*w, *index == K);
#define WVAL(K) case K: *val = WAlt<W, K>::val(*w); break;
#define WPTR(K) case K: return nanostl::get_if<K>(&w);
const void *wptr(W4 &w) { switch (w.index()) { ALTS4(WPTR) } return 0; }
const void *wptr(W4A &w) { switch (w.index()) { ALTS4(WPTR) } return 0; }
const void *wptr(W4B &w) { switch (w.index()) { ALTS4(WPTR) } return 0; }
const void *wptr(W16 &w) { switch (w.index()) { ALTS16(WPTR) } return 0; }
namespace w4 { typedef W4 W; WFN(W, ALTS4) }
namespace w4a { typedef W4A W; WFN(W, ALTS4) }
namespace w4b { typedef W4B W; WFN(W, ALTS4) }
namespace w16 { typedef W16 W; WFN(W, ALTS16) }
}  // namespace

extern "C" {
unsigned long drv_var_sizeof(int ty) {
  return ty == WT_16 ? sizeof(W16) : ty == WT_MC ? sizeof(W4A) : ty == WT_MA ? sizeof(W4B) : sizeof(W4);
}
int drv_var_op(int ty, int op, void *o, void *p, long a, long b, long how, long *out) {
  switch (ty) {
    case WT_16: return w16::wop(0, op, o, p, a, b, how, out);
    case WT_MC: return w4a::wop(0, op, o, p, a, b, how, out);
    case WT_MA: return w4b::wop(0, op, o, p, a, b, how, out);
    default: return w4::wop(0, op, o, p, a, b, how, out);
  }
}
void drv_var_get(int ty, void *o, long *index, long *val, int *valueless) {
  switch (ty) {
    case WT_16: w16::wget((W16 *)o, index, val, valueless); break;
    case WT_MC: w4a::wget((W4A *)o, index, val, valueless); break;
    case WT_MA: w4b::wget((W4B *)o, index, val, valueless); break;
    default: w4::wget((W4 *)o, index, val, valueless);
  }
}
#define TSW(call)                              \
  switch (ty) {                                \
    case TT_3: return TupD<Tup0>::call;        \
    case TT_STR: return TupD<Tup1>::call;      \
    case TT_EMPTY: return TupD<Tup2>::call;    \
    case TT_1: return TupD<Tup3>::call;        \
    case TT_5: return TupD<Tup4>::call;        \
    case TT_ODD: return TupD<Tup5>::call;      \
    case TT_PAIR: return TupD<Pair0>::call;    \
    case TT_PAIRO: return TupD<Pair2>::call;   \
    default: return TupD<Pair1>::call;         \
  }
unsigned long drv_tup_sizeof(int ty) {
  switch (ty) {
    case TT_3: return sizeof(Tup0);
    case TT_STR: return sizeof(Tup1);
    case TT_EMPTY: return sizeof(Tup2);
    case TT_1: return sizeof(Tup3);
    case TT_5: return sizeof(Tup4);
    case TT_ODD: return sizeof(Tup5);
    case TT_PAIR: return sizeof(Pair0);
    case TT_PAIRO: return sizeof(Pair2);
  }
  return sizeof(Pair1);
}
int drv_tup_op(int ty, int o_, void *o, void *p, long a, long b, long *out) { TSW(op(o_, o, p, a, b, out)) }
void drv_tup_get(int ty, void *o, long *vals) { TSW(get(o, vals)) }
}
