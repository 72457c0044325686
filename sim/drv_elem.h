// Element types for the container drivers. The drivers instantiate the real
// nanostl containers; they are compiled and instrumented like the code under
// test and reach the harness only through ctr.h.
#pragma once
#include "nanovector.h"
#include "nanovalarray.h"
#include "nanomap.h"
#include "nanostring.h"
#include "nanosstream.h"
#include "nanoalgorithm.h"
#include "nanoiterator.h"
#include "nanoutility.h"
#include "nanomemory.h"
// optional.hpp does not compile with this macro
#ifndef NANOSTL_ENABLE_EXCEPTION
#include "nanooptional.h"
#define HAVE_OPTIONAL 1
#endif
#include "nanovariant.h"
#include "nanotuple.h"
#include <new>
#include "ctr.h"

extern "C" void sim_c_violation(const char *cls, const char *msg) __attribute__((noreturn));
namespace {
struct ElemError {};

template <int Tag> struct ElemPad { struct type {}; };
template <> struct ElemPad<7> { typedef char type[40]; };
template <> struct ElemPad<11> { typedef long double type; };

// the element; Tag tells the alternatives of a variant apart. The moves of
// tag 4, the move construction of tag 5, the move assignment of tag 6 and the
// swap of tag 8 may throw.
struct FromL { long v; };  // converts to an element
template <int Tag> struct ElemT {
  enum { throwing_ctor = Tag == 4 || Tag == 5, throwing_assign = Tag == 4 || Tag == 6 };
  long v;
  const ElemT *self;
  typename ElemPad<Tag>::type pad;
  void init() {
    self = this;
    if ((unsigned long)this % __alignof__(ElemT)) sim_c_violation("misaligned", "an element was constructed at an address it must not have");
    sim_c_obj_ctor(this);
  }
  static void fault() { if (sim_c_elem_fault()) throw ElemError(); }
  ElemT() : v(0) { sim_c_count(CNT_DEFAULT); fault(); init(); }
  explicit ElemT(long x) : v(x) { init(); }
  ElemT(long x, long y) : v(x + y) { fault(); init(); }
  ElemT(const FromL &f) : v(f.v) { fault(); init(); }
  ElemT(const ElemT &o) : v(0) { sim_c_count(CNT_COPY); sim_c_count(CNT_MCOPY); sim_c_obj_use(&o); fault(); v = o.v; init(); }
  ElemT(ElemT &&o) noexcept(!throwing_ctor) : v(0) {
    sim_c_count(CNT_MOVE); sim_c_obj_use(&o);
    if (throwing_ctor) fault();
    v = o.v; if (&o != this) o.v = -7;
    init();
  }
  ElemT &operator=(const ElemT &o) {
    sim_c_count(CNT_ASSIGN); sim_c_count(CNT_MCOPY); sim_c_obj_use(this); sim_c_obj_use(&o); fault(); v = o.v;
    return *this;
  }
  ElemT &operator=(ElemT &&o) noexcept(!throwing_assign) {
    sim_c_count(CNT_MOVE); sim_c_obj_use(this); sim_c_obj_use(&o);
    if (throwing_assign) fault();
    long t = o.v; if (&o != this) o.v = -7; v = t;
    return *this;
  }
  ElemT &operator=(const FromL &f) { sim_c_obj_use(this); fault(); v = f.v; return *this; }
  ~ElemT() { sim_c_obj_dtor(this); }
  void cmp(const ElemT &o) const { sim_c_count(CNT_CMP); sim_c_obj_use(this); sim_c_obj_use(&o); fault(); }
  bool operator==(const ElemT &o) const { cmp(o); return v == o.v; }
  bool operator!=(const ElemT &o) const { cmp(o); return v != o.v; }
  bool operator<(const ElemT &o) const { cmp(o); return v < o.v; }
  bool operator>(const ElemT &o) const { cmp(o); return v > o.v; }
  bool operator<=(const ElemT &o) const { cmp(o); return v <= o.v; }
  bool operator>=(const ElemT &o) const { cmp(o); return v >= o.v; }
};
typedef ElemT<0> Elem;
typedef ElemT<4> ElemM;
inline void swap(ElemT<8> &a, ElemT<8> &b) {
  sim_c_obj_use(&a); sim_c_obj_use(&b);
  ElemT<8>::fault();
  long t = a.v; a.v = b.v; b.v = t;
}
// an element without move operations
struct Elem2 {
  long v;
  Elem2() : v(0) { sim_c_count(CNT_DEFAULT); Elem::fault(); sim_c_obj_ctor(this); }
  explicit Elem2(long x) : v(x) { sim_c_obj_ctor(this); }
  Elem2(const Elem2 &o) : v(0) { sim_c_count(CNT_COPY); sim_c_obj_use(&o); Elem::fault(); v = o.v; sim_c_obj_ctor(this); }
  Elem2 &operator=(const Elem2 &o) { sim_c_count(CNT_ASSIGN); sim_c_obj_use(this); sim_c_obj_use(&o); Elem::fault(); v = o.v; return *this; }
  ~Elem2() { sim_c_obj_dtor(this); }
  void cmp(const Elem2 &o) const { sim_c_obj_use(this); sim_c_obj_use(&o); Elem::fault(); }
  bool operator==(const Elem2 &o) const { cmp(o); return v == o.v; }
  bool operator<(const Elem2 &o) const { cmp(o); return v < o.v; }
};

typedef nanostl::string Str;
typedef nanostl::vector<Elem> VecE;

// text of a non-negative number; empty for 0; wide enough to need several growths
void text(long v, char *b) {
  char t[24];
  int n = 0;
  for (long x = v; x; x /= 10) t[n++] = '0' + x % 10;
  for (int i = 0; i < n; i++) b[i] = t[n - 1 - i];
  b[n] = 0;
}
template <class T> struct Tr;
template <int N> struct Tr<ElemT<N> > {
  static ElemT<N> make(long v) { return ElemT<N>(v); }
  static long get(const ElemT<N> &e) {
    sim_c_obj_use(&e);
    if (e.self != &e) sim_c_violation("element-relocated", "an element was moved without its move operation");
    return e.v;
  }
};
template <> struct Tr<Elem2> {
  static Elem2 make(long v) { return Elem2(v); }
  static long get(const Elem2 &e) { sim_c_obj_use(&e); return e.v; }
};
template <> struct Tr<int> {
  static int make(long v) { return (int)v; }
  static long get(const int &e) { return e; }
};
template <> struct Tr<unsigned char> {
  static unsigned char make(long v) { return (unsigned char)v; }
  static long get(const unsigned char &e) { return e; }
};
template <> struct Tr<long> {
  static long make(long v) { return v; }
  static long get(const long &e) { return e; }
};
template <> struct Tr<double> {
  static double make(long v) { return (double)v; }
  static long get(const double &e) { return (long)e; }
};
template <> struct Tr<Str> {
  static Str make(long v) { char b[24]; text(v, b); return Str(b); }
  static long get(const Str &s) {
    long v = 0;
    const char *p = s.c_str();
    for (unsigned long i = 0; i < s.size(); i++) { if (p[i] < '0' || p[i] > '9') return -999; v = v * 10 + (p[i] - '0'); }
    if (p[s.size()]) return -998;
    return v;
  }
};
template <> struct Tr<VecE> {  // the number as a sequence: v%5 elements v, v+1, ...; empty for 0
  static VecE make(long v) {
    VecE r;
    if (v) for (long i = 0; i <= v % 5; i++) r.push_back(Elem(v + i));
    return r;
  }
  static long get(const VecE &x) {
    if (x.size() == 0) return 0;
    long v = Tr<Elem>::get(x[0]);
    if ((long)x.size() != v % 5 + 1) return -997;
    for (long i = 0; i < (long)x.size(); i++) if (Tr<Elem>::get(x[i]) != v + i) return -996;
    return v;
  }
};

// Compares by part of its value only, but is equal only to the same value; a strange one is, like a NaN, unequal
// even to itself and in no order with anything.
template <int Nan> struct Odd {
  long v;
  Odd() : v(0) {}
  Odd(long x) : v(x) {}
  bool strange() const { return Nan && (v & 15) == 5; }
  long key() const { return v & 3; }
  bool operator==(const Odd &o) const { return v == o.v && !strange(); }
  bool operator!=(const Odd &o) const { return !(*this == o); }
  bool operator<(const Odd &o) const { return key() < o.key() && !strange() && !o.strange(); }
  bool operator>(const Odd &o) const { return o < *this; }
  bool operator<=(const Odd &o) const { return key() <= o.key() && !strange() && !o.strange(); }
  bool operator>=(const Odd &o) const { return o <= *this; }
};
template <int Nan> struct Tr<Odd<Nan> > {
  static Odd<Nan> make(long v) { return Odd<Nan>(v); }
  static long get(const Odd<Nan> &o) { return o.v; }
};

#define REL6(x, y) ((long)((x) == (y)) | (long)((x) != (y)) << 1 | (long)((x) < (y)) << 2 | (long)((x) > (y)) << 3 | (long)((x) <= (y)) << 4 | (long)((x) >= (y)) << 5)
template <class F> int guard(F f) {
  try {
    f();
    return RC_OK;
  } catch (ElemError &) {
    return RC_ELEM;
  } catch (std::bad_alloc &) {
    return RC_ALLOC;
  } catch (...) {
    return RC_OTHER;
  }
}
}  // namespace
