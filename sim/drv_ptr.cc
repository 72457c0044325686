// Container driver: unique_ptr, optional. See drv_elem.h.
#include "drv_elem.h"

namespace {
// -------------------------------------------------------------------- unique_ptr
struct Base {
  long v;
  Base() : v(0) { sim_c_obj_ctor(this); }
  explicit Base(long x) : v(x) { sim_c_obj_ctor(this); }
  virtual ~Base() { sim_c_obj_dtor(this); }
};
struct Derived : Base {
  long w;
  explicit Derived(long x) : Base(x), w(x) {}
};
struct Del;
struct DelA;
typedef nanostl::unique_ptr<Base, Del> UP;
typedef nanostl::unique_ptr<Base[], DelA> UAD;
struct Del2 {  // a deleter of another type, which converts
  long id;
  explicit Del2(long i = 0) : id(i) {}
  void operator()(Derived *p) const;
};
struct Del {
  long id;
  void *owner;  // for re-entrance
  long gone;    // moved from, and not assigned to since
  Del() : id(0), owner(0), gone(0) {}
  Del(const Del2 &d) : id(d.id), owner(0), gone(0) {}
  explicit Del(long i) : id(i), owner(0), gone(0) {}
  Del(const Del &d) noexcept : id(d.id), owner(d.owner), gone(d.gone) {}
  Del(Del &&d) noexcept : id(d.id), owner(d.owner), gone(d.gone) { d.gone = 1; }
  Del &operator=(const Del &d) noexcept { id = d.id; owner = d.owner; gone = d.gone; return *this; }
  Del &operator=(Del &&d) noexcept { id = d.id; owner = d.owner; long g = d.gone; d.gone = 1; gone = g; return *this; }
  void operator()(Base *p) const;
};
struct DelA2 {
  long id;
  explicit DelA2(long i = 0) : id(i) {}
  void operator()(Base *p) const;
};
struct DelA {
  long id;
  void *owner;
  DelA() : id(0), owner(0) {}
  DelA(const DelA2 &d) : id(d.id), owner(0) {}
  explicit DelA(long i) : id(i), owner(0) {}
  void operator()(Base *p) const;
};
typedef nanostl::unique_ptr<Base> UD;
typedef nanostl::unique_ptr<Base[]> UA;
typedef nanostl::unique_ptr<Derived> UDD;
typedef nanostl::unique_ptr<Derived, Del2> UPD;
typedef nanostl::unique_ptr<Base[], DelA2> UAD2;
typedef void (*DelFn)(Base *);
typedef nanostl::unique_ptr<Base, DelFn> UF;
typedef nanostl::unique_ptr<Base, Del &> UR;  // the deleters belong to the test
struct Nop { void operator()(const void *) const {} };
__thread int reent;

template <class U> void deleting(Base *p, long id, void *owner) {
  sim_c_deleted(p, id);
  sim_c_obj_use(p);
  if (owner && reent < 2 && sim_c_reenter()) {  // the deleter looks at, or resets, the pointer that runs it
    reent++;
    U *u = (U *)owner;
    if (u->get() == p) sim_c_violation("uptr-stale", "while its object is being deleted, get() still returns it");
    u->reset();
    reent--;
  }
}
void Del::operator()(Base *p) const { deleting<UP>(p, id, owner); delete p; }
void DelA::operator()(Base *p) const { deleting<UAD>(p, id, owner); delete[] p; }
void Del2::operator()(Derived *p) const { deleting<UP>(p, 1000 + id, 0); delete p; }
void DelA2::operator()(Base *p) const { deleting<UAD>(p, 1000 + id, 0); delete[] p; }
template <int N> void del_fn(Base *p) { deleting<UP>(p, N, 0); delete p; }
const DelFn del_fns[4] = {del_fn<0>, del_fn<1>, del_fn<2>, del_fn<3>};


template <class U> struct UpX {
  static void none(void *o, long a, long) { if (a & 1) new (o) U(); else new (o) U(nullptr); }
  static U *make(void *o, Base *p, long) { return new (o) U(p); }
  static Base *obj(long a) { return a % 3 == 0 ? new Derived(a) : new Base(a); }
  static void conv(void *o, Base *p, long) { U *t = new (o) U(); t->reset(p); }
  static void convassign(U &u, Base *p, long) { u.reset(p); }
  static long del(U &) { return 0; }
  static long val(U &u) { return (*u).v + (u->v - (*u).v); }
};
template <> struct UpX<UP> {
  static UP *make(void *o, Base *p, long d) { return new (o) UP(p, Del(d)); }
  static Base *obj(long a) { return a % 3 == 0 ? new Derived(a) : new Base(a); }
  static void none(void *o, long a, long d) {
    Del e(d);
    if ((a & 3) == 0) new (o) UP(nullptr, e); else if ((a & 3) == 1) new (o) UP(nullptr, Del(d)); else if (a & 1) new (o) UP(); else new (o) UP(nullptr);
  }
  static void conv(void *o, Base *p, long d) {
    Derived *x = dynamic_cast<Derived *>(p);
    if (x) { UPD t(x, Del2(d)); new (o) UP(nanostl::move(t)); } else { Del e(d); new (o) UP(p, e); }
  }
  static void convassign(UP &u, Base *p, long d) {
    Derived *x = dynamic_cast<Derived *>(p);
    if (x) { UPD t(x, Del2(d)); u = nanostl::move(t); } else { UP t(p, Del(d)); u = nanostl::move(t); }
  }
  static long del(UP &u) { return u.get_deleter().id; }
  static long val(UP &u) { return (*u).v + (u->v - (*u).v); }
};
template <> struct UpX<UR> {
  static UR *make(void *o, Base *p, long d) { return new (o) UR(p, *(Del *)d); }
  static Base *obj(long a) { return a % 3 == 0 ? new Derived(a) : new Base(a); }
  static void none(void *o, long, long d) { new (o) UR(nullptr, *(Del *)d); }
  static void conv(void *o, Base *p, long d) { UR t(p, *(Del *)d); new (o) UR(nanostl::move(t)); }
  static void convassign(UR &u, Base *p, long d) { UR t(p, *(Del *)d); u = nanostl::move(t); }
  static long del(UR &u) { return u.get_deleter().id; }
  static long val(UR &u) { return (*u).v + (u->v - (*u).v); }
};
template <> struct UpX<UF> {
  static UF *make(void *o, Base *p, long d) { return new (o) UF(p, del_fns[d & 3]); }
  static Base *obj(long a) { return a % 3 == 0 ? new Derived(a) : new Base(a); }
  static void none(void *o, long a, long d) { DelFn f = del_fns[d & 3]; if (a & 1) new (o) UF(nullptr, f); else new (o) UF(nullptr, del_fns[d & 3]); }
  static void conv(void *o, Base *p, long d) { DelFn f = del_fns[d & 3]; new (o) UF(p, f); }
  static void convassign(UF &u, Base *p, long d) { UF t(p, del_fns[d & 3]); u = nanostl::move(t); }
  static long del(UF &u) { for (long i = 0; i < 4; i++) if (u.get_deleter() == del_fns[i]) return i; return -1; }
  static long val(UF &u) { return (*u).v + (u->v - (*u).v); }
};
template <> struct UpX<UAD> {
  static UAD *make(void *o, Base *p, long d) { return new (o) UAD(p, DelA(d)); }
  static Base *obj(long a) { long n = 1 + a % 4; Base *p = new Base[n]; for (long i = 0; i < n; i++) p[i].v = a; return p; }
  static void none(void *o, long a, long d) {
    DelA e(d);
    if ((a & 3) == 0) new (o) UAD(nullptr, e); else if ((a & 3) == 1) new (o) UAD(nullptr, DelA(d)); else if (a & 1) new (o) UAD(); else new (o) UAD(nullptr);
  }
  static void conv(void *o, Base *p, long d) {
    if (d & 1) { UAD2 t(p, DelA2(d)); new (o) UAD(nanostl::move(t)); } else { DelA e(d); new (o) UAD(p, e); }
  }
  static void convassign(UAD &u, Base *p, long d) {
    if (d & 1) { UAD2 t(p, DelA2(d)); u = nanostl::move(t); } else { UAD t(p, DelA(d)); u = nanostl::move(t); }
  }
  static long del(UAD &u) { return u.get_deleter().id; }
  static long val(UAD &u) { return u[0].v; }
};
template <> struct UpX<UA> {
  static void none(void *o, long a, long) { if (a & 1) new (o) UA(); else new (o) UA(nullptr); }
  static UA *make(void *o, Base *p, long) { return new (o) UA(p); }
  static Base *obj(long a) { long n = 1 + a % 4; Base *p = new Base[n]; for (long i = 0; i < n; i++) p[i].v = a; return p; }
  static void conv(void *o, Base *p, long) { UA *t = new (o) UA(nullptr); t->reset(p); }
  static void convassign(UA &u, Base *p, long) { UA t(p); u = nanostl::move(t); }
  static long del(UA &) { return 0; }
  static long val(UA &u) { return u[0].v; }
};
template <> void UpX<UD>::conv(void *o, Base *p, long) {
  Derived *d = dynamic_cast<Derived *>(p);
  if (d) { UDD t(d); new (o) UD(nanostl::move(t)); } else new (o) UD(p);
}
template <> void UpX<UD>::convassign(UD &u, Base *p, long) {
  Derived *d = dynamic_cast<Derived *>(p);
  if (d) { UDD t(d); u = nanostl::move(t); } else { UD t(p); u = nanostl::move(t); }
}

template <class U> struct Other {
  static void rel(const U &s, const U &t, long *out) {
    nanostl::unique_ptr<Base, Nop> z(t.get());
    nanostl::unique_ptr<Derived, Nop> d((Derived *)t.get());
    const nanostl::unique_ptr<Base, Nop> &cz = z;
    out[0] = REL6(s, cz) | REL6(cz, s) << 6;
    if (out[0] != (long)(REL6(s, d) | REL6(d, s) << 6)) out[0] = -1;
  }
};
template <class D> struct Other<nanostl::unique_ptr<Base[], D> > {
  typedef nanostl::unique_ptr<Base[], D> U;
  static void rel(const U &s, const U &t, long *out) {
    nanostl::unique_ptr<Base[], Nop> z(t.get());
    out[0] = REL6(s, z) | REL6(z, s) << 6;
  }
};
template <class U> int up_op(int op, void *o, void *p, long a, long b, long *out) {
  typedef UpX<U> X;
  U *u = (U *)o, *w = (U *)p;
  return guard([&] {
    switch (op) {
      case U_CTOR: X::none(o, a, b); break;
      case U_CTORP: { Base *x = X::obj(a); out[0] = (long)x; X::make(o, x, b); break; }
      case U_CONV: { Base *x = X::obj(a); out[0] = (long)x; X::conv(o, x, b); break; }
      case U_CONVASSIGN: { Base *x = X::obj(a); out[0] = (long)x; X::convassign(*u, x, b); break; }
      case U_MOVE: new (o) U(nanostl::move(*w)); break;
      case U_MOVEASSIGN: *u = nanostl::move(*w); break;
      case U_RESET: { Base *x = a ? X::obj(a) : 0; out[0] = (long)x; if (x) u->reset(x); else u->reset(); break; }
      case U_NULL: *u = nullptr; break;
      case U_RELEASE: out[0] = (long)u->release(); break;
      case U_CMP: {
        const U &s = *u, &t = *w;
        out[0] = REL6(s, t);
        out[1] = REL6(s, nullptr) | REL6(nullptr, s) << 6;
        Other<U>::rel(s, t, out + 2);  // with a pointer of another type
        break;
      }
      case U_SWAP: if (a & 1) u->swap(*w); else { using nanostl::swap; swap(*u, *w); } break;
      case U_DTOR: u->~U(); break;
    }
  });
}
template <class U> void up_get(void *o, const void **p, long *val, long *del, int *nn) {
  U &u = *(U *)o;
  *p = u.get();
  *nn = u ? 1 : 0;
  if ((u == nullptr) == (u != nullptr) || (u == nullptr) != !*nn || (nullptr == u) != (u == nullptr)) *nn = 2;
  *del = UpX<U>::del(u);
  const U &cu = u;
  if ((const void *)&u.get_deleter() != (const void *)&cu.get_deleter()) *nn = 3;
  if (*p) *val = UpX<U>::val(u);
}

#ifdef HAVE_OPTIONAL
// ----------------------------------------------------------------------- optional
template <class T> struct Conv {  // what converts to T
  typedef FromL U;
  static U make(long v, char *) { FromL f = {v}; return f; }
  static T *two(nanostl::optional<T> &x, long v, char *) { return &x.emplace(v - 3, 3L); }
  static nanostl::optional<T> inplace2(long v, char *) { return nonstd::make_optional<T>(v - 3, 3L); }
  template <class A, class B> static long rel(const A &a, const B &b) { return REL6(a, b); }
};
template <> struct Conv<int> {
  typedef long U;
  static U make(long v, char *) { return v; }
  static int *two(nanostl::optional<int> &x, long v, char *) { return &x.emplace((short)1 + (int)v - 1); }
  static nanostl::optional<int> inplace2(long v, char *) { return nonstd::make_optional<int>(v); }
  template <class A, class B> static long rel(const A &a, const B &b) { return REL6(a, b); }
};
template <> struct Conv<Odd<0> > {
  typedef long U;
  static U make(long v, char *) { return v; }
  static Odd<0> *two(nanostl::optional<Odd<0> > &x, long v, char *) { return &x.emplace(v); }
  static nanostl::optional<Odd<0> > inplace2(long v, char *) { return nonstd::make_optional<Odd<0> >(v); }
  template <class A, class B> static long rel(const A &a, const B &b) { return REL6(a, b); }
};
template <> struct Conv<Str> {
  typedef const char *U;
  static U make(long v, char *b) { text(v, b); return b; }
  static Str *two(nanostl::optional<Str> &x, long v, char *b) { text(v, b); unsigned long n = 0; while (b[n]) n++; return &x.emplace((const char *)b, (const char *)b + n); }
  static nanostl::optional<Str> inplace2(long v, char *b) { text(v, b); unsigned long n = 0; while (b[n]) n++; return nonstd::make_optional<Str>((const char *)b, (const char *)b + n); }
  // strings have no <= and >=
  template <class A, class B> static long rel(const A &a, const B &b) { return (long)(a == b) | (long)(a != b) << 1 | (long)(a < b) << 2 | (long)(a > b) << 3 | (long)!(a > b) << 4 | (long)!(a < b) << 5; }
};
template <class T> struct OptD {
  typedef nanostl::optional<T> O;
  static unsigned long sz() { return sizeof(O); }
  static int op(int op, void *o, void *p, long a, long b, long *out) {
    O *x = (O *)o, *y = (O *)p;
    char buf[24];
    return guard([&] {
      switch (op) {
        case O_CTOR: if (a & 1) new (o) O(); else new (o) O(nonstd::nullopt); break;
        case O_VALUE:
          switch (b % 8) {
            case 0: { T t(Tr<T>::make(a)); new (o) O(t); break; }
            case 1: { T t(Tr<T>::make(a)); new (o) O(nanostl::move(t)); break; }
            case 2: { T t(Tr<T>::make(a)); new (o) O(nonstd::make_optional(t)); break; }
            case 3: { T t(Tr<T>::make(a)); new (o) O(nonstd::make_optional<T>(nanostl::move(t))); break; }
            case 4: new (o) O(Conv<T>::inplace2(a, buf)); break;
            case 5: { T t(Tr<T>::make(a)); new (o) O(nonstd::in_place, (const T &)t); break; }
            case 6: { T t(Tr<T>::make(a)); O tmp(t); new (o) O(nanostl::move(tmp)); break; }
            case 7: { T t(Tr<T>::make(a)); new (o) O(nonstd::in_place, nanostl::move(t)); break; }
          }
          break;
        case O_CONV: case O_CONVASSIGN: {
          typedef typename Conv<T>::U U;
          nanostl::optional<U> t;
          if (b & 1) t.emplace(Conv<T>::make(a, buf));
          if (op == O_CONV) { if (b & 2) new (o) O(t); else new (o) O(nanostl::move(t)); }
          else { O &r = (b & 2) ? (*x = t) : (*x = nanostl::move(t)); out[0] = &r == x; }
          if (t.has_value() != (b & 1)) out[0] = 0;
          break;
        }
        case O_COPY: new (o) O(*(const O *)y); break;
        case O_MOVE: new (o) O(nanostl::move(*y)); break;
        case O_DTOR: x->~O(); break;
        case O_ASSIGN: { O &r = (*x = *(const O *)y); out[0] = &r == x; break; }
        case O_MOVEASSIGN: { O &r = (*x = nanostl::move(*y)); out[0] = &r == x; break; }
        case O_SETVAL: {
          T t(Tr<T>::make(a));
          O &r = (b & 1) ? (*x = t) : (*x = nanostl::move(t));
          out[0] = &r == x;
          break;
        }
        case O_OWN: { O &r = (*x = *(const T *)&**x); out[0] = &r == x; break; }
        case O_NULL: if (a & 1) *x = O(); else *x = nonstd::nullopt; break;
        case O_EMPLACE:
          if (b & 1) {
            T t(Tr<T>::make(a));
            T &r = (b & 2) ? x->emplace(nanostl::move(t)) : x->emplace(t);
            out[0] = &r == &**x;
          }
          else out[0] = Conv<T>::two(*x, a, buf) == &**x;
          break;
        case O_RESET: x->reset(); break;
        case O_SWAP: if (a & 1) x->swap(*y); else { using nanostl::swap; swap(*x, *y); } break;
        case O_VALUEOR: { T t(Tr<T>::make(a)); out[0] = Tr<T>::get(((const O *)x)->value_or(t)); break; }
        case O_VALUEOF:
          switch (a & 3) {
            case 0: out[0] = Tr<T>::get(x->value()); break;
            case 1: out[0] = Tr<T>::get(((const O *)x)->value()); break;
            case 2: { const T &r = nanostl::move(*x).value(); out[0] = Tr<T>::get(r); break; }
            case 3: { const T &r = nanostl::move(*(const O *)x).value(); out[0] = Tr<T>::get(r); break; }
          }
          break;
        case O_MOVEOUT:  // takes the value out of *x; it stays there, moved from
          switch (a & 3) {
            case 0: { T t(*nanostl::move(*x)); out[0] = Tr<T>::get(t); break; }
            case 1: { T t(nanostl::move(*x).value()); out[0] = Tr<T>::get(t); break; }
            case 2: { T t(nanostl::move(*x).value_or(Tr<T>::make(b))); out[0] = Tr<T>::get(t); break; }
            case 3: { T t(nanostl::move(**x)); out[0] = Tr<T>::get(t); break; }
          }
          break;
        case O_CMP: {
          const O &s = *x, &t = *y;
          out[0] = REL6(s, t);
          out[1] = REL6(s, nonstd::nullopt) | REL6(nonstd::nullopt, s) << 6;
          T v(Tr<T>::make(a));
          const T &w = v;
          out[2] = Conv<T>::rel(s, w) | Conv<T>::rel(w, s) << 6;
          break;
        }
      }
    });
  }
  static void get(void *o, int *has, long *val) {
    O &x = *(O *)o;
    const O &c = x;
    *has = x.has_value();
    if (*has != (bool)x) { *has = 2; return; }
    if (*has) {
      *val = Tr<T>::get(*c);
      if (&*c != &x.value() || &*c != &c.value() || c.operator->() != &*x || x.operator->() != &*x) *has = 3;
    }
  }
};

#endif
}  // namespace

extern "C" {
#define USW(F, ...)                          \
  switch (ty) {                              \
    case UT_DEL: return F<UP>(__VA_ARGS__);  \
    case UT_DEF: return F<UD>(__VA_ARGS__);  \
    case UT_ARR: return F<UA>(__VA_ARGS__);  \
    case UT_FN: return F<UF>(__VA_ARGS__);   \
    case UT_REF: return F<UR>(__VA_ARGS__);  \
    default: return F<UAD>(__VA_ARGS__);     \
  }
unsigned long drv_uptr_sizeof(int ty) {
  return ty == UT_DEL ? sizeof(UP) : ty == UT_DEF ? sizeof(UD) : ty == UT_ARR ? sizeof(UA) : ty == UT_FN ? sizeof(UF) : ty == UT_REF ? sizeof(UR) : sizeof(UAD);
}
void *drv_uptr_refs(long *ids) {  // makes eight deleters
  Del *d = new Del[8];
  for (long i = 0; i < 8; i++) d[i].id = ids[i];
  return d;
}
void drv_uptr_norefs(void *d) { delete[] (Del *)d; }
int drv_uptr_op(int ty, int op, void *o, void *p, long a, long b, long *out) {
  if (ty == UT_REF) {
    Del *refs = (Del *)out[3];
    int r = up_op<UR>(op, o, p, a, (long)(refs + (b & 7)), out);  // the deleter to refer to
    for (int i = 0; i < 8; i++)
      if (refs[i].gone) sim_c_violation("uptr-deleter-moved", "a deleter that a unique_ptr only refers to was moved from");
    return r;
  }
  USW(up_op, op, o, p, a, b, out)
}
void drv_uptr_own(int ty, void *o, void *owner) {
  if (ty == UT_DEL) ((UP *)o)->get_deleter().owner = owner;
  else if (ty == UT_ARRD) ((UAD *)o)->get_deleter().owner = owner;
}
void drv_uptr_get(int ty, void *o, const void **p, long *val, long *del, int *nn) { USW(up_get, o, p, val, del, nn) }
void drv_obj_delete(int ty, const void *p) { if (ty == UT_ARR || ty == UT_ARRD) delete[] (Base *)p; else delete (Base *)p; }

#ifdef HAVE_OPTIONAL
#define OSW(call)                                                                \
  switch (ty) {                                                                  \
    case OT_ELEM: return OptD<Elem>::call;                                       \
    case OT_STR: return OptD<Str>::call;                                         \
    case OT_MOVE: return OptD<ElemM>::call;                                      \
    case OT_MC: return OptD<ElemT<5> >::call;                                    \
    case OT_MA: return OptD<ElemT<6> >::call;                                    \
    case OT_SW: return OptD<ElemT<8> >::call;                                    \
    case OT_ODD: return OptD<Odd<0> >::call;                                     \
    default: return OptD<int>::call;                                             \
  }
unsigned long drv_opt_sizeof(int ty) { OSW(sz()) }
int drv_opt_op(int ty, int o_, void *o, void *p, long a, long b, long *out) { OSW(op(o_, o, p, a, b, out)) }
void drv_opt_get(int ty, void *o, int *has, long *val) { OSW(get(o, has, val)) }
#else
unsigned long drv_opt_sizeof(int) { return 1; }
int drv_opt_op(int, int, void *, void *, long, long, long *) { return RC_OTHER; }
void drv_opt_get(int, void *, int *, long *) {}
#endif
}
