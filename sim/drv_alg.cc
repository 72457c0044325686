// Algorithm driver: instantiates the real nanostl algorithms over arrays,
// vectors and valarrays. Compiled and instrumented like the code under test.
#define NANOSTL_PSTL
#include "nanoexecution.h"
#include "nanoalgorithm.h"
#include "nanoiterator.h"
#include "nanovector.h"
#include "nanovalarray.h"
#include <new>
#include "ctr.h"

namespace {
struct AlgError {};
struct Num {  // ordered by value only; id tells equal ones apart
  long v, id;
  Num(long a = 0, long b = 0) : v(a), id(b) { sim_c_obj_ctor(this); }
  Num(const Num &o) : v(o.v), id(o.id) { sim_c_obj_use(&o); if (sim_c_elem_fault()) throw AlgError(); sim_c_obj_ctor(this); }
  ~Num() { sim_c_obj_dtor(this); }
  Num &operator=(const Num &o) {
    sim_c_count(CNT_ASSIGN); sim_c_obj_use(this); sim_c_obj_use(&o);
    if (sim_c_elem_fault()) throw AlgError();
    v = o.v; id = o.id;
    return *this;
  }
  void cmp(const Num &o) const { sim_c_count(CNT_CMP); sim_c_obj_use(this); sim_c_obj_use(&o); if (sim_c_elem_fault()) throw AlgError(); }
  bool operator<(const Num &o) const { cmp(o); return v < o.v; }
  bool operator>(const Num &o) const { cmp(o); return v > o.v; }
  bool operator<=(const Num &o) const { cmp(o); return v <= o.v; }
  bool operator>=(const Num &o) const { cmp(o); return v >= o.v; }
  bool operator==(const Num &o) const { cmp(o); return v == o.v; }
  bool operator!=(const Num &o) const { cmp(o); return v != o.v; }
};
template <class F> int guard(F f) {
  try { f(); } catch (const AlgError &) { return RC_ELEM; } catch (const std::bad_alloc &) { return RC_ALLOC; } catch (...) { return RC_OTHER; }
  return RC_OK;
}
// a forward iterator and nothing more
template <class T> struct Fwd {
  T *p;
  T &operator*() const { return *p; }
  T *operator->() const { return p; }
  Fwd &operator++() { ++p; return *this; }
  Fwd operator++(int) { Fwd f = *this; ++p; return f; }
  bool operator==(const Fwd &o) const { return p == o.p; }
  bool operator!=(const Fwd &o) const { return p != o.p; }
};
typedef nanostl::vector<Num> VecN;
typedef nanostl::valarray<Num> ValN;
template <class C> struct Held {
  static Num *data(void *o) { C &c = *(C *)o; return c.size() ? &c[0] : 0; }
  static void make(void *o, long n) {
    C *c = new (o) C();
    c->resize((unsigned long)n);
    for (long i = 0; i < n; i++) (*c)[i].v = (*c)[i].id = i;
  }
  static long alg(void *o, int op, long i, long j, const Num &v) {
    C &c = *(C *)o;
    switch (op) {
      case A_FILL: nanostl::fill(c.begin() + i, c.begin() + j, v); break;
      case A_FILLPAR: nanostl::fill(nanostl::execution::par, c.begin() + i, c.begin() + j, v); break;
      case A_MAXEL: return nanostl::max_element(c.begin() + i, c.begin() + j) - c.begin();
      case A_DIST: return (long)nanostl::distance(c.begin() + i, c.begin() + j);
    }
    return 0;
  }
};
// arrays of the language's own types; ids are 0
template <class T> struct Raw {
  static long narrow(long v) { return (long)(T)v; }
  static void make(void *o, long n) { for (long i = 0; i < n; i++) ((T *)o)[i] = (T)i; }
  static void set(void *o, long i, long v) { ((T *)o)[i] = (T)v; }
  static long get(void *o, long i) { return (long)((T *)o)[i]; }
  static void alg(void *o, int op, long i, long j, long v, long *out) {
    T *a = (T *)o;
    const T *c = a;
    T x = (T)v;
    switch (op) {
      case A_MIN: out[0] = &nanostl::min(c[i], c[j]) - c; break;
      case A_MAX: out[0] = &nanostl::max(c[i], c[j]) - c; break;
      case A_FILL: if (v & 1) nanostl::fill(a + i, a + j, x); else nanostl::fill(a + i, a + j, (long)x); break;  // also a value of another type
      case A_FILLPAR: if (v & 1) nanostl::fill(nanostl::execution::par, a + i, a + j, x); else { Fwd<T> f = {a + i}, l = {a + j}; nanostl::fill(nanostl::execution::par_unseq, f, l, x); } break;
      case A_MAXEL: if (v & 1) out[0] = nanostl::max_element(c + i, c + j) - c; else { Fwd<T> f = {a + i}, l = {a + j}; out[0] = nanostl::max_element(f, l).p - a; } break;
      case A_DIST: out[0] = v & 1 ? (long)nanostl::distance(a + i, a + j) : (long)nanostl::distance(c + i, c + j); break;
    }
  }
};
#define RSW(call)                                  \
  switch (ty) {                                    \
    case AT_BYTE: return Raw<unsigned char>::call; \
    case AT_CHAR: return Raw<signed char>::call;   \
    case AT_INT: return Raw<int>::call;            \
    default: return Raw<double>::call;             \
  }
long raw_narrow(int ty, long v) { RSW(narrow(v)) }
void raw_make(int ty, void *o, long n) { RSW(make(o, n)) }
void raw_set(int ty, void *o, long i, long v) { RSW(set(o, i, v)) }
long raw_get(int ty, void *o, long i) { RSW(get(o, i)) }
void raw_alg(int ty, void *o, int op, long i, long j, long v, long *out) { RSW(alg(o, op, i, j, v, out)) }
template <class T> void sin_of(long i, long j, long (*val)(int, void *, long), int ty, void *o, long v, long *out) {  // every element of a valarray, in order
  typedef nanostl::valarray<T> V;
  V x;
  x.resize((unsigned long)(j - i));
  for (long k = i; k < j; k++) x[k - i] = (T)(val(ty, o, k) * 0.37 + v);
  const V &cx = x;
  V r = nanostl::sin(cx);
  out[0] = (long)r.size() == j - i ? -1 : -2;
  for (long k = i; k < j && out[0] == -1; k++) {
    T e = nanostl::sin((T)(val(ty, o, k) * 0.37 + v)), g = r[k - i];
    if (__builtin_memcmp(&e, &g, sizeof e) || x[k - i] != (T)(val(ty, o, k) * 0.37 + v)) out[0] = k;
  }
}
}  // namespace

extern "C" {
long drv_alg_narrow(int ty, long v) { return ty >= AT_BYTE ? raw_narrow(ty, v) : v; }
unsigned long drv_alg_sizeof(int ty, long n) {
  if (ty >= AT_BYTE) return (ty == AT_INT ? sizeof(int) : ty == AT_DBL ? sizeof(double) : 1) * (unsigned long)(n ? n : 1);
  return ty == AT_VEC ? sizeof(VecN) : ty == AT_VAL ? sizeof(ValN) : sizeof(Num) * (unsigned long)(n ? n : 1);
}
void drv_alg_make(int ty, void *o, long n) {
  if (ty >= AT_BYTE) raw_make(ty, o, n);
  else if (ty == AT_VEC) Held<VecN>::make(o, n);
  else if (ty == AT_VAL) Held<ValN>::make(o, n);
  else for (long i = 0; i < n; i++) new ((Num *)o + i) Num(i, i);
}
void drv_alg_drop(int ty, void *o, long n) {
  if (ty >= AT_BYTE) return;
  if (ty == AT_VEC) ((VecN *)o)->~VecN();
  else if (ty == AT_VAL) ((ValN *)o)->~ValN();
  else for (long i = 0; i < n; i++) ((Num *)o)[i].~Num();
}
static Num *at(int ty, void *o) { return ty == AT_VEC ? Held<VecN>::data(o) : ty == AT_VAL ? Held<ValN>::data(o) : (Num *)o; }
void drv_alg_set(int ty, void *o, long i, long v, long id) { if (ty >= AT_BYTE) { raw_set(ty, o, i, v); return; } Num *p = at(ty, o) + i; p->v = v; p->id = id; }
void drv_alg_get(int ty, void *o, long i, long *v, long *id) { if (ty >= AT_BYTE) { *v = raw_get(ty, o, i); *id = 0; return; } const Num *p = at(ty, o) + i; sim_c_obj_use(p); *v = p->v; *id = p->id; }
int drv_alg_op(int ty, void *o, int op, long i, long j, long v, long id, long *out) {
  return guard([&] {
    if (op == A_SIN) {
      long (*val)(int, void *, long) = [](int t, void *p, long k) { long w, d; drv_alg_get(t, p, k, &w, &d); return w; };
      if (v & 1) sin_of<float>(i, j, val, ty, o, v, out);
      else sin_of<double>(i, j, val, ty, o, v, out);
      return;
    }
    if (ty >= AT_BYTE) { raw_alg(ty, o, op, i, j, v, out); return; }
    Num *a = at(ty, o);
    const Num *c = a;
    if (op == A_MIN) { out[0] = &nanostl::min(c[i], c[j]) - c; return; }
    if (op == A_MAX) { out[0] = &nanostl::max(c[i], c[j]) - c; return; }
    Num n(v, id);
    switch (ty) {
      case AT_VEC: out[0] = Held<VecN>::alg(o, op, i, j, n); return;
      case AT_VAL: out[0] = Held<ValN>::alg(o, op, i, j, n); return;
      case AT_FWD: {
        Fwd<Num> f = {a + i}, l = {a + j};
        if (op == A_FILL) nanostl::fill(f, l, n);
        else if (op == A_FILLPAR) nanostl::fill(nanostl::execution::par_unseq, f, l, n);
        else if (op == A_MAXEL) out[0] = nanostl::max_element(f, l).p - a;
        else out[0] = (long)nanostl::distance(a + i, a + j);
        return;
      }
    }
    if (op == A_FILL) nanostl::fill(a + i, a + j, n);
    else if (op == A_FILLPAR) nanostl::fill(nanostl::execution::par, a + i, a + j, n);
    else if (op == A_MAXEL) out[0] = nanostl::max_element(c + i, c + j) - c;
    else out[0] = (long)nanostl::distance(c + i, c + j);
  });
}
}

#ifdef NANOSTL_ENABLE_EXCEPTION
// src/nanoexception.cc does not compile with this macro
#include "nanoexception.h"
void nanostl::terminate() noexcept {}
#endif
