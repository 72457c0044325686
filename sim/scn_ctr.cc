// Container scenarios: histories of operations on vectors, valarrays, maps,
// strings, smart pointers, optionals and variants under failing allocations,
// throwing elements and re-entrant callbacks, against small reference models.
#include "sim.h"
#include "ctr.h"
#include "hard_num.h"

#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#include <algorithm>
#include <charconv>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>

using namespace sim;

static std::string fmt(const char *f, ...) {
  char b[512];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  return b;
}

// ------------------------------------------------------- registry of objects
static std::unordered_map<const void *, int> objs;  // objects between construction and destruction
static u64 cnt[CNT_N];
static std::vector<std::pair<const void *, long>> deleted_by[64];  // by thread
static int reentered_by[64];
#define deleted deleted_by[self() & 63]
#define reentered reentered_by[self() & 63]
static bool several;  // several threads work at once: the objects alive are not one machine's

extern "C" {
void sim_c_obj_ctor(const void *p) {
  if (!objs.emplace(p, 1).second) violation("element-overwritten", "an element was constructed on top of a live one");
}
void sim_c_obj_dtor(const void *p) {
  if (!objs.erase(p)) violation("element-destroyed-twice", "an element was destroyed that is not alive");
}
void sim_c_obj_use(const void *p) {
  if (!objs.count(p)) violation("element-not-alive", "an element was used that is not alive");
}
int sim_c_elem_fault(void) { return faults_armed() && choose(K_ELEM, 1); }
void sim_c_count(int w) { cnt[w]++; }
void sim_c_deleted(const void *p, long d) { deleted.push_back({p, d}); }
int sim_c_reenter(void) {
  if (!choose(K_REENTER, 1)) return 0;
  reentered++;
  return 1;
}
}
static void reset_registry() {
  objs.clear();
  memset((void *)cnt, 0, sizeof cnt);
  for (auto &d : deleted_by) d.clear();
  memset((void *)reentered_by, 0, sizeof reentered_by);
  several = false;
}
static void check_all_gone() {
  if (!objs.empty()) violation("element-leak", "%zu element(s) were never destroyed", objs.size());
  heap_check_leaks("leak");
}

// A driver call with the faults armed.
struct Rc {
  int rc;
  bool faulted;
  bool failed() const { return rc != RC_OK; }
};
static u32 nfaults() { return fired(K_ALLOC) + fired(K_ELEM); }
template <class F> static Rc armed(const char *what, F f) {
  u32 f0 = nfaults();
  set_faults_armed(true);
  int rc = f();
  set_faults_armed(false);
  Rc r{rc, nfaults() > f0};
  if (rc == RC_OTHER) violation("unexpected-exception", "%s threw something that is neither the element's nor an allocation's exception", what);
  if (rc != RC_OK && !r.faulted) violation("failed-without-cause", "%s failed though nothing failed underneath", what);
  if (rc != RC_OK) log("%s failed (%s)", what, rc == RC_ALLOC ? "out of memory" : "element");
  return r;
}
// an operation that is given an rvalue moves it
static void no_copy(bool mv, u64 c0, const char *type, const char *what) {
  if (mv && !several && cnt[CNT_MCOPY] != c0) violation("copied-not-moved", "%s: %s from an rvalue copied an element that can be moved", type, what);
}
static void must(int rc, const char *what) {
  if (rc != RC_OK) violation("failed-without-cause", "%s failed though nothing failed underneath", what);
}
// a buffer the driver may write to: in simulated memory, so that its address is the same in every process
template <class T> struct SimBuf {
  T *p;
  explicit SimBuf(size_t n) : p((T *)heap_alloc(n * sizeof(T))) {}
  ~SimBuf() { heap_free((void *)p); }
  SimBuf(const SimBuf &) = delete;
  T &operator[](size_t i) { return p[i]; }
};
static std::string list(const std::vector<long> &v) {
  std::string s = "[";
  for (size_t i = 0; i < v.size() && i < 24; i++) s += fmt("%s%ld", i ? " " : "", v[i]);
  if (v.size() > 24) s += fmt(" ... %zu in all", v.size());
  return s + "]";
}

// == != < > <= >= as bits, from the order of two values
static long rel6(int c) { return (c == 0) | (c != 0) << 1 | (c < 0) << 2 | (c > 0) << 3 | (c <= 0) << 4 | (c >= 0) << 5; }
// when equal and equivalent differ
static long rel6(int c, bool same) { return (rel6(c) & ~3l) | (same ? 1 : 2); }
static long odd_key(long v) { return v & 3; }
static bool odd_strange(long v) { return (v & 15) == 5; }
template <class T> static int three_way(const T &a, const T &b) { return a < b ? -1 : b < a; }
struct Machine {
  virtual ~Machine() {}
  virtual void step(const Op &o) = 0;
  virtual void look(const Op &o) = 0;  // const operations only
  virtual void finish() = 0;
  int done = 0;
};

// ================================================================ P10: sequences
static const char *const vt_name[] = {"vector<Elem>", "vector<int>", "vector<string>", "vector<vector<Elem>>", "valarray<Elem>", "valarray<double>", "vector<unsigned char>"};
// lengths at which buffers, blocks and counters tend to end
static i64 edge_size(Rng &r, i64 top) {
  static const i64 e[] = {31, 63, 64, 100, 127, 128, 199, 255, 256, 300, 511, 512, 999, 1000, 1023, 1024, 2047, 2048, 4095, 4096, 5000, 8191, 8192, 16384, 32767, 32768, 65535, 65536};
  i64 k;
  do k = e[r.below(sizeof e / sizeof *e)] + r.range(-1, 2);
  while (k > top);
  return k;
}
// how many operations a history has: now and then very many
static int hist_len(Rng &r, int k, int most = 2500) { return r.below(500) ? k : 300 + (int)r.below(most); }
struct SeqM : Machine {
  int ty;
  struct Slot {
    void *o = nullptr;
    std::vector<long> m;
    void *data = nullptr;
    long cap = 0;
  } s[3];
  static const int NS = 3;
  long big;  // elements at most that one operation adds
  size_t lim() const { return (size_t)big + 400; }
  bool valarr() const { return ty == VA_ELEM || ty == VA_DBL; }
  explicit SeqM(int t, long most = 0) : ty(t), big(most) {
    for (auto &x : s) make(x);
  }
  void make(Slot &x) {
    x.o = heap_alloc(drv_vec_sizeof(ty));
    if (armed("construction", [&] { return drv_vec_op(ty, V_CTOR, x.o, 0, 0, 0, 0); }).failed())
      must(drv_vec_op(ty, V_CTOR, x.o, 0, 0, 0, 0), "construction");
    x.m.clear();
    sync(x, 0);
  }
  void drop(Slot &x) {
    Rc r = armed("destruction", [&] { return drv_vec_op(ty, V_DTOR, x.o, 0, 0, 0, 0); });
    if (r.failed()) violation("destructor-threw", "the destructor of a %s threw", vt_name[ty]);
    heap_free(x.o);
    x.o = nullptr;
  }
  std::vector<long> read(Slot &x, int how) {
    long size, cap, empty;
    void *data;
    const long MAXN = (long)(2 * lim() + 100);
    SimBuf<long> b(MAXN);
    must(drv_vec_read(ty, x.o, how, b.p, MAXN, &size, &cap, &empty, &data), "reading the elements");
    if (size < 0 || size > MAXN) violation("seq-size", "%s: %s", vt_name[ty], size < -1 ? fmt("iteration visits %ld elements, not size()", -size - 1).c_str() : fmt("size() is %ld", size).c_str());
    if (cap < size) violation("seq-capacity", "capacity() %ld is less than size() %ld", cap, size);
    if ((empty != 0) != (size == 0)) violation("seq-size", "empty() is %ld with %ld elements", empty, size);
    x.data = data;
    x.cap = cap;
    return std::vector<long>(b.p, b.p + size);
  }
  void expect(Slot &x, int how, const char *what) {
    std::vector<long> b = read(x, how);
    if (b != x.m)
      violation("seq-contents", "%s after %s: contents %s, expected %s", vt_name[ty], what, list(b).c_str(), list(x.m).c_str());
  }
  void sync(Slot &x, int how) { expect(x, how, "construction"); }
  // after a failed operation with only the basic guarantee: whatever is there must come from somewhere
  void adopt(Slot &x, int how, const std::vector<long> &from, long extra, const char *what, size_t maxn) {
    std::vector<long> b = read(x, how);
    if (b.size() > maxn) violation("seq-contents", "%s after a failed %s has %zu elements", vt_name[ty], what, b.size());
    for (long v : b)
      if (v != 0 && v != extra && std::find(from.begin(), from.end(), v) == from.end() &&
          std::find(x.m.begin(), x.m.end(), v) == x.m.end() && !(ty == VT_VEC && (v == -997 || v == -996)))
        violation("seq-contents", "%s after a failed %s holds %ld, which was in neither operand", vt_name[ty], what, v);
    x.m = b;
  }
  void step(const Op &o) override {
    Slot &x = s[o.a % NS], &y = s[(o.a >> 4) % NS];
    int how = (int)(o.c & 15);
    long n = (long)x.m.size(), out = -1;
    void *data0 = x.data;
    bool room = n < x.cap;
    long v = ty == VT_BYTE ? o.b & 255 : 1 + (o.b % 100000);
    bool keep = false;  // earlier elements must not have moved
    const char *what = "";
    done++;
    switch (o.code) {
      case V_PUSH: {
        what = "push_back";
        if (x.m.size() > lim()) return;
        Rc r = armed(what, [&] { return drv_vec_op(ty, V_PUSH, x.o, 0, v, 0, 0); });
        if (valarr()) {
          if (r.failed()) { adopt(x, how, {v}, 0, what, 1 > n ? 1 : n); return; }
          x.m = {v};
        } else {
          if (r.failed()) SIM_PROBE(room ? "seq: push_back failed with room" : "seq: push_back failed while growing");
          if (!r.failed()) x.m.push_back(v);
          keep = room;
        }
        break;
      }
      case V_PUSHSELF: {
        if (!n || valarr() || x.m.size() > lim()) return;
        what = "push_back of an own element";
        long i = o.b % n;
        if (!room) SIM_PROBE("seq: push_back of an own element while growing");
        Rc r = armed(what, [&] { return drv_vec_op(ty, V_PUSHSELF, x.o, 0, i, 0, 0); });
        if (!r.failed()) x.m.push_back(x.m[i]);
        keep = room;
        break;
      }
      case V_RESIZE: {
        what = "resize";
        long k = big && o.b % 7 == 0 ? (o.b >> 3) % (big + 1) : big && o.b % 7 == 1 ? big - o.b % 3 : o.b % 3 == 0 ? o.b % 40 : o.b % 3 == 1 ? n + o.b % 4 : (n ? o.b % n : 0);
        if (k > (long)lim()) return;
        Rc r = armed(what, [&] { return drv_vec_op(ty, V_RESIZE, x.o, 0, k, 0, 0); });
        if (r.failed()) SIM_PROBE("seq: resize failed");
        if (r.failed() && k <= n) violation("failed-without-cause", "resize from %ld to %ld elements failed", n, k);
        if (!r.failed()) x.m.resize(k, 0);
        keep = k <= x.cap;
        break;
      }
      case V_HUGE: {  // more elements than there is memory, up to more than there are addresses
        what = "resize beyond all memory";
        static const u64 huge[] = {~0ull, ~0ull - 1, 1ull << 63, (1ull << 63) - 1, 1ull << 62, 1ull << 61, (1ull << 61) + 1, (1ull << 61) - 1, 1ull << 60, (1ull << 60) + 1, 1ull << 59, 1ull << 58, 1ull << 40, (1ull << 33) + 2, (1ull << 32) + 3, 1ull << 32, 1ull << 31};
        long k = (long)huge[o.b % (sizeof huge / sizeof *huge)];
        int rc = drv_vec_op(ty, V_RESIZE, x.o, 0, k, 0, 0);
        if (rc != RC_ALLOC) violation("seq-contents", "%s: resize to %llu elements %s", vt_name[ty], (unsigned long long)k, rc == RC_OK ? "succeeded" : "failed with another exception than that of the allocation");
        SIM_PROBE("seq: resize beyond all memory");
        keep = true;
        break;
      }
      case V_POP: {
        if (!n) return;
        what = valarr() ? "erase of the last element" : "pop_back";
        // one, or (from a long sequence) most of them or all
        for (long k = big && n > 30 && o.b % 2 ? o.b % 3 ? n - (o.b >> 2) % (n / 4) : 1 + (o.b >> 2) % n : 1; k > 0; k--) {
          if (armed(what, [&] { return drv_vec_op(ty, V_POP, x.o, 0, 0, 0, 0); }).failed()) violation("failed-without-cause", "%s failed", what);
          x.m.pop_back();
        }
        keep = true;
        break;
      }
      case V_ERASE: {
        if (!n) return;
        what = "erase";
        long i = o.b % n;
        Rc r = armed(what, [&] { return drv_vec_op(ty, V_ERASE, x.o, 0, i, 0, &out); });
        if (r.failed()) { SIM_PROBE("seq: erase failed"); adopt(x, how, {}, 0, what, n); return; }
        x.m.erase(x.m.begin() + i);
        if (out != i) violation("seq-erase", "erase at %ld of %ld returned position %ld", i, n, out);
        keep = true;
        break;
      }
      case V_CLEAR:
        what = "clear";
        if (armed(what, [&] { return drv_vec_op(ty, V_CLEAR, x.o, 0, 0, 0, 0); }).failed()) violation("failed-without-cause", "clear failed");
        x.m.clear();
        break;
      case V_ASSIGN: {
        if (&x == &y) return;
        what = "assign";
        long k = (long)y.m.size(), a = k ? o.b % (k + 1) : 0, b = a + (k > a ? (o.b >> 8) % (k - a + 1) : 0);
        Rc r = armed(what, [&] { return drv_vec_op(ty, V_ASSIGN, x.o, y.o, a, b, 0); });
        if (r.failed()) {
          SIM_PROBE("seq: assign failed");
          adopt(x, how, y.m, 0, what, std::max(n, b - a));
          expect(y, how, "being assigned from");
          return;
        }
        x.m.assign(y.m.begin() + a, y.m.begin() + b);
        break;
      }
      case V_EQ: {
        what = "=";
        Rc r = armed(what, [&] { return drv_vec_op(ty, V_EQ, x.o, y.o, 0, 0, &out); });
        if (&x == &y) SIM_PROBE("seq: self-assignment");
        if (r.failed()) {
          SIM_PROBE("seq: assignment failed");
          std::vector<long> from = y.m;
          adopt(x, how, from, 0, what, std::max(n, (long)from.size()));
          if (&x != &y) expect(y, how, "being assigned from");
          return;
        }
        if (!out) violation("seq-assign", "= does not return the object assigned to");
        x.m = std::vector<long>(y.m);
        break;
      }
      case V_COPY: case V_CTOR: case V_CTORN: {
        if (&x == &y && o.code == V_COPY) return;
        if (o.code == V_CTORN && !valarr()) return;
        what = "construction";
        long k = big ? (o.b >> 3) % (big + 1) : o.b % 12;
        drop(x);
        x.o = heap_alloc(drv_vec_sizeof(ty));
        Rc r = armed("construction", [&] { return drv_vec_op(ty, o.code, x.o, y.o, k, 0, 0); });
        if (r.failed()) {
          SIM_PROBE("seq: construction failed");
          heap_free(x.o);
          make(x);
        } else {
          x.m.clear();
          if (o.code == V_COPY) x.m = y.m;
          if (o.code == V_CTORN) x.m.assign(k, 0);
        }
        break;
      }
      case V_SWAP:
        what = "swap";
        if (armed(what, [&] { return drv_vec_op(ty, V_SWAP, x.o, y.o, 0, 0, 0); }).failed()) violation("failed-without-cause", "swap failed");
        x.m.swap(y.m);
        break;
      case V_SET: {
        if (!n) return;
        what = "element assignment";
        long i = o.b % n;
        Rc r = armed(what, [&] { return drv_vec_op(ty, V_SET, x.o, 0, i, v, 0); });
        if (r.failed() && ty == VT_VEC) {  // the element is itself a vector: basic guarantee
          std::vector<long> b = read(x, how);
          if (b.size() == x.m.size()) x.m[i] = b[i];
        }
        if (!r.failed()) x.m[i] = v;
        keep = true;
        break;
      }
      case V_FILL: {
        what = "fill";
        Rc r = armed(what, [&] { return drv_vec_op(ty, V_FILL, x.o, 0, v, 0, 0); });
        if (r.failed()) {
          std::vector<long> old = x.m;
          adopt(x, how, {}, v, what, n);
          if (x.m.size() != old.size()) violation("seq-contents", "fill changed the size");
          return;
        }
        x.m.assign(n, v);
        break;
      }
      case V_SIN: {
        if (ty != VA_DBL || &x == &y) return;
        what = "sin";
        Rc r = armed(what, [&] { return drv_vec_op(ty, V_SIN, x.o, y.o, 0, 0, 0); });
        if (r.failed()) { adopt(x, how, y.m, 1, what, std::max(x.m.size(), y.m.size())); }
        else {
          x.m = read(x, how);
          if (x.m.size() != y.m.size()) violation("seq-contents", "sin of %zu elements has %zu", y.m.size(), x.m.size());
        }
        break;
      }
      default: return;
    }
    expect(x, how, what);
    if (&x != &y) expect(y, how, fmt("%s of another object", what).c_str());
    if (keep && data0 && x.data != data0) violation("seq-moved", "%s moved the elements though there was room for them", what);
  }
  void look(const Op &o) override { expect(s[o.a % NS], (int)(o.c & 15) | 1, "being read"); }
  void finish() override {
    for (auto &x : s) {
      expect(x, 1, "everything");
      drop(x);
    }
  }
};
static const int seq_ops[] = {V_PUSH, V_PUSH, V_PUSH, V_PUSH, V_PUSHSELF, V_PUSHSELF, V_RESIZE, V_RESIZE, V_POP, V_ERASE, V_ERASE, V_CLEAR, V_ASSIGN, V_ASSIGN, V_EQ, V_EQ, V_SWAP, V_SET, V_FILL, V_COPY, V_COPY, V_CTORN, V_SIN, V_HUGE};
static Op gen_seq_op(Rng &r) {
  Op o;
  o.code = r.pick(seq_ops);
  o.a = (i64)(r.below(3) | r.below(3) << 4);
  o.b = (i64)r.below(1 << 20);
  o.c = (i64)r.below(16);
  return o;
}
static void gen_seq(Rng &r, Plan &p) {
  p.cfg = {(i64)r.next() & 0xffff, (i64)r.below(VT_N), 0};
  int k = hist_len(r, 3 + (int)r.below(r.below(4) ? 20 : 60));
  if (r.below(200) == 0) {  // long sequences
    p.cfg[2] = edge_size(r, p.cfg[1] == VT_BYTE || p.cfg[1] == VT_INT ? 20000 : 2100);
    k = 3 + (int)r.below(8);
  }
  for (int i = 0; i < k; i++) p.ops.push_back(gen_seq_op(r));
  if (p.cfg[2]) p.ops[r.below(2)].code = V_RESIZE, p.ops[0].b -= (p.ops[0].b % 7) - 1;
}
static std::string show_seq_op(int ty, const Op &o) {
  static const char *const n[] = {"construct", "copy-construct from", "construct(n)", "destroy", "push_back", "push_back own", "resize", "pop_back", "erase", "clear", "assign from", "= ", "swap with", "set", "fill", "", "sin of", "resize beyond all memory"};
  return fmt("%s #%lld: %s #%lld (%lld)", vt_name[ty], (long long)o.a % 3, n[o.code], (long long)(o.a >> 4) % 3, (long long)o.b);
}
template <class M> static void run_machine(M *m, const Plan &p) {
  for (const Op &o : p.ops) m->step(o);
  m->finish();
  note_trivial(m->done == 0);
  delete m;
  check_all_gone();
}
static void run_seq(const Plan &p) {
  reset_registry();
  run_machine(new SeqM((int)p.cfg[1] % VT_N, (long)p.cfg[2]), p);
}
static Register r_seq({"seq_hist", "P10", "histories of operations on vectors and valarrays under failing allocations and throwing elements",
                       bit(K_ALLOC) | bit(K_ELEM) | SF_NOPREEMPT, 2000000, gen_seq, run_seq,
                       [](const Plan &p, const Op &o) { return show_seq_op((int)p.cfg[1] % VT_N, o); }});

// long histories: appending must stay cheap however many elements there are
static void gen_seqlong(Rng &r, Plan &p) {
  static const int tys[] = {VT_ELEM, VT_ELEM, VT_INT, VT_STR, VT_BYTE};
  p.cfg = {(i64)r.next() & 0xffff, r.pick(tys), 0};
  bool big = (p.cfg[1] == VT_INT || p.cfg[1] == VT_BYTE) && r.below(12) == 0, huge = r.below(1500) == 0;
  if (big) p.cfg[2] = 70000;
  if (huge) p.cfg[2] = p.cfg[1] == VT_BYTE ? 400000 : p.cfg[1] == VT_INT ? 160000 : p.cfg[1] == VT_STR ? 12000 : 70000;
  int k = 1 + (int)r.below(3);
  for (int i = 0; i < k; i++) {
    Op o;
    o.code = (int)r.below(3);
    o.a = 1 + (i64)r.below(1 << (2 + r.below(10)));
    if (big && i == 0) o.code = 0, o.a = edge_size(r, 70000);
    if (huge && i == 0) o.code = 0, o.a = p.cfg[2] - (i64)r.below(9);
    p.ops.push_back(o);
  }
}
static void run_seqlong(const Plan &p) {
  reset_registry();
  const int ty = (int)p.cfg[1];
  const size_t most = p.cfg[2] ? (size_t)p.cfg[2] : 6000;
  auto val = [&](u64 i) { return ty == VT_BYTE ? (long)(1 + i) & 255 : 1 + (long)i; };
  void *v = heap_alloc(drv_vec_sizeof(ty));
  must(drv_vec_op(ty, V_CTOR, v, 0, 0, 0, 0), "construction");
  std::vector<long> m;
  u64 n = 0, w = 0;
  const u64 esz = ty == VT_BYTE ? 1 : ty == VT_INT ? 4 : 32;
  u64 bytes = 0;  // allocated by appending
  for (const Op &o : p.ops) {
    if (o.code == 2) {
      long k = std::min<long>((long)m.size(), o.a);
      for (long i = 0; i < k; i++) { drv_vec_op(ty, V_POP, v, 0, 0, 0, 0); m.pop_back(); }
      continue;
    }
    for (long i = 0; i < o.a && m.size() < most; i++) {
      u64 c0 = cnt[CNT_COPY] + cnt[CNT_ASSIGN] + cnt[CNT_MOVE] + cnt[CNT_DEFAULT], b0 = heap_sut_bytes();
      Rc r = armed("push_back", [&] { return drv_vec_op(ty, V_PUSH, v, 0, val(n), 0, 0); });
      if (!r.failed()) m.push_back(val(n));
      if (!r.faulted) w += cnt[CNT_COPY] + cnt[CNT_ASSIGN] + cnt[CNT_MOVE] + cnt[CNT_DEFAULT] - c0, bytes += heap_sut_bytes() - b0;
      n++;
      if (n % 4096 == 0 && ty != VT_STR && bytes > 12 * n * esz + 4096)
        violation("seq-quadratic", "%llu push_backs of elements of %llu bytes allocated %llu bytes", (unsigned long long)n, (unsigned long long)esz, (unsigned long long)bytes);
    }
  }
  if (w > 16 * n + 64)
    violation("seq-quadratic", "%llu push_backs made %llu element operations", (unsigned long long)n, (unsigned long long)w);
  long size, cap, empty;
  void *d;
  const long room = (long)most + 2000;
  SimBuf<long> buf(room);
  must(drv_vec_read(ty, v, 2, buf.p, room, &size, &cap, &empty, &d), "reading");
  std::vector<long> b(buf.p, buf.p + (size < 0 || size > room ? 0 : size));
  if (b != m) violation("seq-contents", "%ld elements, expected %zu, after %llu push_backs", size, m.size(), (unsigned long long)n);
  must(drv_vec_op(ty, V_DTOR, v, 0, 0, 0, 0), "destruction");
  heap_free(v);
  note_trivial(n == 0);
  check_all_gone();
}
static Register r_seqlong({"seq_long", "P10", "thousands of appended elements, with failing allocations: contents and total work",
                           bit(K_ALLOC) | bit(K_ELEM) | SF_NOPREEMPT, 100000000, gen_seqlong, run_seqlong,
                           [](const Plan &p, const Op &o) { return fmt("%s: %s %lld", vt_name[p.cfg[1] % VT_N], o.code == 2 ? "pop_back" : "push_back", (long long)o.a); }});

// ===================================================================== P11: maps
static const char *const mt_name[] = {"map<Elem,Elem>", "map<int,int>", "map<string,Elem>"};
struct MapM : Machine {
  int ty;
  struct Slot {
    void *o = nullptr;
    std::map<long, long> m;
    std::map<long, const void *> at;
  } s[3];
  explicit MapM(int t) : ty(t) {
    for (auto &x : s) make(x);
  }
  long key(i64 k) const { return ty == MT_STR ? 1000 + (long)(k % 9000) : (long)(k % 9000) - (ty == MT_INT ? 4000 : 0); }
  void make(Slot &x) {
    x.o = heap_alloc(drv_map_sizeof(ty));
    if (armed("construction", [&] { return drv_map_op(ty, M_CTOR, x.o, 0, 0, 0, 0); }).failed())
      must(drv_map_op(ty, M_CTOR, x.o, 0, 0, 0, 0), "construction");
    x.m.clear();
    x.at.clear();
    expect(x, "construction");
  }
  void drop(Slot &x) {
    if (armed("destruction", [&] { return drv_map_op(ty, M_DTOR, x.o, 0, 0, 0, 0); }).failed()) violation("destructor-threw", "the destructor of a map threw");
    heap_free(x.o);
    x.o = nullptr;
  }
  std::map<long, long> read(Slot &x, std::map<long, const void *> *at) {
    long n = 0;
    const long MAXN = 512;
    SimBuf<long> k(MAXN), v(MAXN);
    SimBuf<const void *> nd(MAXN);
    must(drv_map_read(ty, x.o, k.p, v.p, MAXN, &n, nd.p), "iterating");
    if (n < 0) violation("map-iterate", "%s: an iterator does not differ from its predecessor", mt_name[ty]);
    if (n > MAXN) violation("map-iterate", "%s: iteration does not end", mt_name[ty]);
    std::map<long, long> r;
    for (long i = 0; i < n; i++) {
      if (i && k[i - 1] >= k[i]) violation("map-order", "%s: iteration visits key %ld after key %ld", mt_name[ty], k[i], k[i - 1]);
      r[k[i]] = v[i];
      if (at) (*at)[k[i]] = nd[i];
    }
    long out[3] = {-1, 0, 0};
    must(drv_map_op(ty, M_EMPTY, x.o, 0, 0, 0, out), "empty");
    if ((out[0] != 0) != (n == 0)) violation("map-size", "%s: empty() is %ld with %ld elements", mt_name[ty], out[0], n);
    return r;
  }
  static std::string str(const std::map<long, long> &m) {
    std::string s = "{";
    int n = 0;
    for (auto &e : m) {
      if (n++ == 16) { s += fmt(" ... %zu in all", m.size()); break; }
      s += fmt("%s%ld:%ld", n > 1 ? " " : "", e.first, e.second);
    }
    return s + "}";
  }
  void expect(Slot &x, const char *what) {
    std::map<long, const void *> at;
    std::map<long, long> r = read(x, &at);
    if (r != x.m) violation("map-contents", "%s after %s: %s, expected %s", mt_name[ty], what, str(r).c_str(), str(x.m).c_str());
    for (auto &e : x.at) {  // references and iterators to elements stay valid
      if (!at.count(e.first)) continue;
      if (at[e.first] != e.second) violation("map-moved", "%s: %s moved the element of key %ld", mt_name[ty], what, e.first);
    }
    x.at = at;
  }
  void step(const Op &o) override {
    Slot &x = s[o.a % 3], &y = s[(o.a >> 4) % 3];
    long k = key(o.b), v = 1 + o.c % 100000, out[3] = {-9, -9, -9};
    const char *what = "";
    bool had = x.m.count(k);
    done++;
    switch (o.code) {
      case M_INSERT: {
        what = "insert";
        Rc r = armed(what, [&] { return drv_map_op(ty, M_INSERT, x.o, 0, k, v, out); });
        if (r.failed()) { SIM_PROBE("map: insert failed"); break; }
        if (had) SIM_PROBE("map: insert of a key that is there");
        if (out[0] != !had) violation("map-insert", "%s: insert of key %ld says %ld, the key was%s there", mt_name[ty], k, out[0], had ? "" : " not");
        if (out[1] != k || out[2] != (had ? x.m[k] : v))
          violation("map-insert", "%s: insert of %ld:%ld returns an iterator at %ld:%ld", mt_name[ty], k, v, out[1], out[2]);
        if (!had) x.m[k] = v;
        break;
      }
      case M_INDEX: {
        what = "operator[]";
        Rc r = armed(what, [&] { return drv_map_op(ty, M_INDEX, x.o, 0, k, 0, out); });
        if (r.failed()) break;
        if (out[0] != (had ? x.m[k] : 0)) violation("map-index", "%s: [%ld] is %ld, expected %ld", mt_name[ty], k, out[0], had ? x.m[k] : 0);
        if (!had) x.m[k] = 0;
        break;
      }
      case M_SET: {
        what = "[key] = value";
        Rc r = armed(what, [&] { return drv_map_op(ty, M_SET, x.o, 0, k, v, out); });
        if (!r.failed()) { x.m[k] = v; break; }
        if (!had) {
          std::map<long, long> now = read(x, 0);
          if (now.count(k) && now[k] == 0) x.m[k] = 0;
        }
        break;
      }
      case M_FIND: case M_UPPER: {
        what = o.code == M_FIND ? "find" : "upper_bound";
        Rc r = armed(what, [&] { return drv_map_op(ty, o.code, x.o, 0, k, v & 1, out); });
        if (r.failed()) break;
        auto it = o.code == M_FIND ? x.m.find(k) : x.m.upper_bound(k);
        if (out[0] < 0) violation("map-end", "%s: comparisons of the iterator %s(%ld) returns with end() contradict each other", mt_name[ty], what, k);
        if ((out[0] == 1) != (it == x.m.end())) violation("map-find", "%s: %s(%ld) %s", mt_name[ty], what, k, out[0] ? "finds nothing" : "finds something that is not there");
        if (!out[0] && (out[1] != it->first || out[2] != it->second))
          violation("map-find", "%s: %s(%ld) is at %ld:%ld, expected %ld:%ld", mt_name[ty], what, k, out[1], out[2], it->first, it->second);
        break;
      }
      case M_EQ: {
        what = "=";
        Rc r = armed(what, [&] { return drv_map_op(ty, M_EQ, x.o, y.o, 0, 0, out); });
        if (!r.failed() && !out[0]) violation("map-assign", "= does not return the map assigned to");
        if (&x == &y) {
          SIM_PROBE("map: self-assignment");
          x.at.clear();
          if (r.failed()) { std::map<long, long> now = read(x, 0); for (auto &e : now) if (!x.m.count(e.first) || x.m[e.first] != e.second) violation("map-contents", "self-assignment invented %ld:%ld", e.first, e.second); x.m = now; }
          break;
        }
        if (r.failed()) {
          SIM_PROBE("map: assignment failed");
          std::map<long, long> now = read(x, 0);
          for (auto &e : now)
            if (!(x.m.count(e.first) && x.m[e.first] == e.second) && !(y.m.count(e.first) && y.m[e.first] == e.second))
              violation("map-contents", "%s after a failed assignment holds %ld:%ld, which was in neither", mt_name[ty], e.first, e.second);
          x.m = now;
        } else
          x.m = y.m;
        x.at.clear();
        break;
      }
      case M_COPY: case M_CTOR: {
        if (&x == &y && o.code == M_COPY) return;
        what = "construction";
        drop(x);
        x.at.clear();
        x.o = heap_alloc(drv_map_sizeof(ty));
        Rc r = armed("construction", [&] { return drv_map_op(ty, o.code, x.o, y.o, 0, 0, 0); });
        if (r.failed()) {
          SIM_PROBE("map: copy failed");
          heap_free(x.o);
          make(x);
        } else if (o.code == M_COPY)
          x.m = y.m;
        else
          x.m.clear();
        break;
      }
      default: return;
    }
    expect(x, what);
    if (&x != &y) expect(y, fmt("%s of another map", what).c_str());
  }
  void look(const Op &o) override {
    Slot &x = s[o.a % 3];
    long k = key(o.b), out[3] = {-9, -9, -9};
    int code = o.c & 1 ? M_FIND : M_UPPER;
    Rc r = armed("find", [&] { return drv_map_op(ty, code, x.o, 0, k, 1, out); });
    if (r.failed()) return;
    auto it = code == M_FIND ? x.m.find(k) : x.m.upper_bound(k);
    if ((out[0] == 1) != (it == x.m.end()) || (!out[0] && (out[1] != it->first || out[2] != it->second)))
      violation("map-find", "%s: looking for %ld gives %ld/%ld:%ld", mt_name[ty], k, out[0], out[1], out[2]);
  }
  void finish() override {
    for (auto &x : s) {
      expect(x, "everything");
      drop(x);
    }
  }
};
static const int map_ops[] = {M_INSERT, M_INSERT, M_INSERT, M_INSERT, M_INSERT, M_INDEX, M_INDEX, M_SET, M_SET, M_FIND, M_FIND, M_UPPER, M_UPPER, M_EQ, M_COPY, M_CTOR};
static Op gen_map_op(Rng &r, int span) {
  Op o;
  o.code = r.pick(map_ops);
  if (o.code == M_CTOR && r.below(3)) o.code = M_INSERT;
  o.a = (i64)(r.below(r.below(2) ? 3 : 1) | r.below(3) << 4);
  o.b = (i64)(3996 + r.below(span));
  o.c = (i64)r.below(1 << 20);
  return o;
}
static void gen_map(Rng &r, Plan &p) {
  p.cfg = {(i64)r.next() & 0xffff, (i64)r.below(MT_N)};
  int k = hist_len(r, 3 + (int)r.below(r.below(4) ? 20 : 60), 900);
  int span = 3 + (int)r.below(1 << r.below(7));
  for (int i = 0; i < k; i++) p.ops.push_back(gen_map_op(r, span));
}
static std::string show_map_op(int ty, const Op &o) {
  static const char *const n[] = {"construct", "copy-construct from", "destroy", "insert", "[]", "[]=", "find", "upper_bound", "= ", "empty"};
  return fmt("%s #%lld: %s #%lld key %lld value %lld", mt_name[ty], (long long)o.a % 3, n[o.code], (long long)(o.a >> 4) % 3, (long long)o.b, 1 + (long long)o.c % 100000);
}
static void run_map(const Plan &p) {
  reset_registry();
  run_machine(new MapM((int)p.cfg[1] % MT_N), p);
}
static Register r_map({"map_hist", "P11", "histories of operations on maps under failing allocations and throwing keys and values",
                       bit(K_ALLOC) | bit(K_ELEM) | SF_NOPREEMPT, 8000000, gen_map, run_map,
                       [](const Plan &p, const Op &o) { return show_map_op((int)p.cfg[1] % MT_N, o); }});

// large maps: searching must stay cheap for every order of insertion and after copies
static void gen_mapbig(Rng &r, Plan &p) {
  static const int tys[] = {MT_ELEM, MT_ELEM, MT_ELEM, MT_INT, MT_STR};
  p.cfg = {(i64)r.next() & 0xffff, r.pick(tys)};
  int k = 1 + (int)r.below(4);
  for (int i = 0; i < k; i++) {
    Op o;
    o.code = (int)r.below(7);
    o.a = 4 + (i64)r.below(1 << (4 + r.below(7)));
    o.b = (i64)r.below(1 << 16);
    p.ops.push_back(o);
  }
  if (r.below(6000) == 0) {  // very many
    p.cfg[1] = MT_ELEM;
    p.ops[0].code = (int)r.below(6) == 3 ? 4 : (int)r.below(3);
    p.ops[0].a = r.range(60000, 120000);
  }
}
static void run_mapbig(const Plan &p) {
  reset_registry();
  const int ty = (int)p.cfg[1];
  const long base = ty == MT_STR ? 500000 : 0;  // texts of numbers of equal length are ordered like the numbers
  void *m = heap_alloc(drv_map_sizeof(ty));
  must(drv_map_op(ty, M_CTOR, m, 0, 0, 0, 0), "construction");
  std::map<long, long> ref;
  long lo = 0, hi = 0;
  u64 worst = 0;
  auto cost = [&](const char *what, u64 c) {
    u64 n = ref.size() + 1, lg = 0;
    while (n >> lg) lg++;
    if (c > worst) worst = c;
    if (c > 40 + 12 * lg) violation("map-depth", "%s in a map of %zu elements made %llu comparisons", what, ref.size(), (unsigned long long)c);
  };
  auto ins = [&](long k) {
    long out[3];
    u64 c0 = cnt[CNT_CMP];
    Rc r = armed("insert", [&] { return drv_map_op(ty, M_INSERT, m, 0, k + base, k * 2 + 1, out); });
    cost("insert", cnt[CNT_CMP] - c0);
    if (!r.failed()) ref.emplace(k, k * 2 + 1);
    if (!r.failed() && (out[1] != k + base || out[2] != ref[k])) violation("map-find", "insert of %ld gives %ld:%ld", k, out[1] - base, out[2]);
  };
  for (const Op &o : p.ops) {
    if (ref.size() > 3000) break;
    switch (o.code) {
      case 0: for (long i = 0; i < o.a; i++) ins(hi++); break;
      case 1: for (long i = 0; i < o.a; i++) ins(--lo); break;
      case 2: for (long i = 0; i < o.a; i++) ins(i & 1 ? hi++ : --lo); break;
      case 3: { Rng r((u64)o.b); for (long i = 0; i < o.a; i++) ins(r.range(-4000, 4000)); break; }
      case 4: for (long i = 0; i < o.a; i++) { ins(hi + o.a - 1 - i); } hi += o.a; break;
      case 5: for (long i = 0; i < o.a; i++) ins(hi += 1 + (o.b & 3)); hi++; break;
      case 6: {  // carry on with a copy
        void *c = heap_alloc(drv_map_sizeof(ty));
        Rc r = armed("copy", [&] { return drv_map_op(ty, M_COPY, c, m, 0, 0, 0); });
        if (r.failed()) { heap_free(c); break; }
        must(drv_map_op(ty, M_DTOR, m, 0, 0, 0, 0), "destruction");
        heap_free(m);
        m = c;
        break;
      }
    }
  }
  // searches
  Rng r((u64)p.cfg[0]);
  for (int i = 0; i < 60; i++) {
    long k = r.range(lo - 2, hi + 2), out[3] = {-9, -9, -9};
    u64 c0 = cnt[CNT_CMP];
    int code = i & 1 ? M_FIND : M_UPPER;
    must(drv_map_op(ty, code, m, 0, k + base, 0, out), "find");
    cost(code == M_FIND ? "find" : "upper_bound", cnt[CNT_CMP] - c0);
    auto it = code == M_FIND ? ref.find(k) : ref.upper_bound(k);
    if ((out[0] == 1) != (it == ref.end()) || (!out[0] && (out[1] != it->first + base || out[2] != it->second)))
      violation("map-find", "looking for %ld among %zu elements gives %ld/%ld:%ld", k, ref.size(), out[0], out[1], out[2]);
  }
  long n = 0;
  const long room = (long)ref.size() + 1000;
  SimBuf<long> ks(room), vs(room);
  u64 c0 = cnt[CNT_CMP];
  must(drv_map_read(ty, m, ks.p, vs.p, room, &n, 0), "iterating");
  if (n != (long)ref.size()) violation("map-contents", "iteration visits %ld of %zu elements", n, ref.size());
  long i = 0;
  for (auto &e : ref) {
    if (ks[i] != e.first + base || vs[i] != e.second) violation("map-contents", "element %ld is %ld:%ld, expected %ld:%ld", i, ks[i], vs[i], e.first, e.second);
    i++;
  }
  if (n) cost("one step of an iteration (mean)", (cnt[CNT_CMP] - c0) / n);
  must(drv_map_op(ty, M_DTOR, m, 0, 0, 0, 0), "destruction");
  heap_free(m);
  if (worst > 60) SIM_PROBE("map: more than 60 comparisons in one search");
  note_trivial(ref.empty());
  check_all_gone();
}
static Register r_mapbig({"map_big", "P11", "maps of up to thousands of elements in many insertion orders: contents and comparisons per search",
                          bit(K_ALLOC) | bit(K_ELEM) | SF_NOPREEMPT, 400000000, gen_mapbig, run_mapbig,
                          [](const Plan &p, const Op &o) {
                            static const char *const n[] = {"ascending", "descending", "outwards", "random", "ascending blocks reversed", "strided", "continue with a copy"};
                            return fmt("%s: %s %lld", mt_name[p.cfg[1] % MT_N], n[o.code], (long long)o.a);
                          }});

// ================================================================== P12: strings
struct StrM : Machine {
  struct Slot {
    void *o = nullptr;
    std::string m;
  } s[3], q[2];  // strings, string streams
  size_t most;  // characters
  explicit StrM(i64 big = 0) : most(3000 + 3 * (size_t)big) {
    for (auto &x : s) make(x, false);
    for (auto &x : q) make(x, true);
  }
  bool isq(const Slot &x) const { return &x >= q && &x < q + 2; }
  void make(Slot &x, bool stream) {
    x.o = heap_alloc(drv_str_sizeof(stream));
    must(drv_str_op(stream ? SS_CTOR : S_CTOR, x.o, 0, 0, 0, 0, 0), "construction");
    x.m.clear();
    expect(x, 0, "construction");
  }
  void drop(Slot &x) {
    if (armed("destruction", [&] { return drv_str_op(isq(x) ? SS_DTOR : S_DTOR, x.o, 0, 0, 0, 0, 0); }).failed()) violation("destructor-threw", "the destructor of a string threw");
    heap_free(x.o);
    x.o = nullptr;
  }
  static std::string esc(const std::string &t) {
    std::string r = "\"";
    for (unsigned char c : t.substr(0, 60)) r += c >= 32 && c < 127 && c != '"' ? std::string(1, (char)c) : fmt("\\x%02x", c);
    return r + (t.size() > 60 ? fmt("\"... (%zu)", t.size()) : "\"");
  }
  std::string read(Slot &x, int how) {
    long size, len, empty;
    const long room = (long)x.m.size() + 4096;
    SimBuf<char> b(room);
    must(drv_str_read(isq(x), x.o, how, b.p, room, &size, &len, &empty), "reading a string");
    if (size != len || size < 0 || size >= room) violation("str-size", "size() is %ld, length() is %ld", size, len);
    if ((empty != 0) != (size == 0)) violation("str-size", "empty() is %ld with %ld characters", empty, size);
    if (b[size]) violation("str-terminator", "a string of %ld characters is not terminated", size);
    return std::string(b.p, size);
  }
  void expect(Slot &x, int how, const char *what) {
    std::string t = read(x, how);
    if (t != x.m) violation("str-contents", "after %s a string is %s, expected %s", what, esc(t).c_str(), esc(x.m).c_str());
  }
  static std::string text(i64 seed, i64 n) {
    static const char al[] = "ab\x7f\x80\xff z9\0";
    std::string t;
    Rng r((u64)seed & 0xff);
    for (i64 i = 0; i < n; i++) t += n > 40 && (seed & 256) ? al[r.below(6)] : al[r.below(sizeof al - 1)];
    return t;
  }
  struct Buf {  // exactly the bytes, in checked memory
    char *p;
    Buf(const std::string &t, bool term) {
      p = (char *)heap_alloc(t.size() + term);
      memcpy(p, t.data(), t.size() + term);
    }
    ~Buf() { heap_free(p); }
  };
  void step(const Op &o) override {
    Slot &x = s[o.a % 3], &y = s[(o.a >> 4) % 3], &w = s[(o.a >> 8) % 3];
    Slot &u = q[(o.a >> 12) & 1], &t = q[(o.a >> 13) & 1];
    int how = (int)(o.c & 3);
    long out[2] = {-9, -9}, n = (long)x.m.size();
    std::string tx = text(o.b, o.c >> 4 & 0xfffff);
    const char *what = "";
    done++;
    switch (o.code) {
      case S_CTOR: case S_CSTR: case S_RANGE: case S_COUNT: case S_COPY: case S_PLUS: {
        if (o.code == S_COPY && &x == &y) return;
        if (o.code == S_PLUS && (&x == &y || &x == &w)) return;
        if (o.code == S_PLUS && y.m.size() + w.m.size() > most) return;
        what = "construction";
        std::string want = o.code == S_CTOR ? "" : o.code == S_COPY ? y.m : o.code == S_PLUS ? y.m + w.m
                           : o.code == S_CSTR ? std::string(tx.c_str()) : tx;
        drop(x);
        x.o = heap_alloc(drv_str_sizeof(0));
        Buf b(tx, o.code == S_CSTR);
        Rc r = armed(what, [&] {
          if (o.code == S_PLUS) return drv_str_op(S_PLUS, x.o, y.o, (const char *)w.o, 0, 0, 0);
          return drv_str_op(o.code, x.o, y.o, b.p, 0, (long)tx.size(), 0);
        });
        if (r.failed()) {
          SIM_PROBE("str: construction failed");
          heap_free(x.o);
          make(x, false);
        } else
          x.m = want;
        if (o.code == S_PLUS) expect(w, how, "+");
        break;
      }
      case S_APPEND: {
        what = "+=";
        if (n + y.m.size() > most) return;
        if (&x == &y) SIM_PROBE("str: appended to itself");
        Rc r = armed(what, [&] { return drv_str_op(S_APPEND, x.o, y.o, 0, 0, 0, out); });
        if (r.failed()) SIM_PROBE("str: += failed");
        else {
          if (!out[0]) violation("str-assign", "+= does not return the string");
          x.m += std::string(y.m);
        }
        break;
      }
      case S_EQ: {
        what = "=";
        Rc r = armed(what, [&] { return drv_str_op(S_EQ, x.o, y.o, 0, 0, 0, out); });
        if (r.failed()) SIM_PROBE("str: = failed");
        else {
          if (!out[0]) violation("str-assign", "= does not return the string");
          x.m = std::string(y.m);
        }
        break;
      }
      case S_CLEAR:
        what = "clear";
        if (armed(what, [&] { return drv_str_op(S_CLEAR, x.o, 0, 0, 0, 0, 0); }).failed()) violation("failed-without-cause", "clear failed");
        x.m.clear();
        break;
      case S_ERASE: {
        if (!n) return;
        what = "erase";
        long i = o.b % n;
        if (armed(what, [&] { return drv_str_op(S_ERASE, x.o, 0, 0, i, 0, out); }).failed()) violation("failed-without-cause", "erase failed");
        x.m.erase(i, 1);
        if (out[0] != i) violation("str-erase", "erase at %ld returned position %ld", i, out[0]);
        break;
      }
      case S_SET: {
        if (!n || tx.empty()) return;
        what = "[i] = c";
        long i = o.b % n;
        Buf b(tx.substr(0, 1), false);
        if (armed(what, [&] { return drv_str_op(S_SET, x.o, 0, b.p, o.c & 1, i, 0); }).failed()) violation("failed-without-cause", "[] failed");
        x.m[i] = tx[0];
        break;
      }
      case S_CMP: case S_CMPC: {
        what = "compare";
        std::string z = o.code == S_CMP ? y.m : o.c & 4 ? x.m.substr(0, o.b % (n + 1)) + (o.c & 8 ? tx.substr(0, 1) : "") : tx;
        if (o.code == S_CMPC) z = z.c_str();  // ends at its first NUL
        Buf b(z, true);
        must(armed(what, [&] { return drv_str_op(o.code, x.o, y.o, b.p, 0, 0, out); }).rc, "compare");
        int c = x.m.compare(z);
        long e0 = c < 0 ? -1 : c > 0, e1 = (c == 0) | (c != 0) << 1 | (c < 0) << 2 | (c > 0) << 3;
        if (out[0] != e0 || out[1] != e1)
          violation("str-compare", "%s and %s: compare says %ld, == != < > say %lx, expected %ld, %lx", esc(x.m).c_str(), esc(z).c_str(), out[0], out[1], e0, e1);
        break;
      }
      case SS_PUT: case SS_STR: {
        what = "<<";
        if (u.m.size() + y.m.size() > most) return;
        Rc r = armed(what, [&] { return drv_str_op(o.code, u.o, y.o, 0, 0, 0, out); });
        if (r.failed()) SIM_PROBE("str: stream << failed");
        else u.m += y.m;
        if (!r.failed() && o.code == SS_PUT && !out[0]) violation("str-assign", "<< does not return the stream");
        expect(u, how, what);
        break;
      }
      case SS_CLEAR:
        what = "clear of a stream";
        if (armed(what, [&] { return drv_str_op(SS_CLEAR, u.o, 0, 0, 0, 0, 0); }).failed()) violation("failed-without-cause", "clear failed");
        u.m.clear();
        expect(u, how, what);
        break;
      case SS_MOVE: {
        if (&u == &t) return;
        what = "move of a stream";
        Rc r = armed(what, [&] { return drv_str_op(SS_MOVE, u.o, t.o, 0, 0, 0, 0); });
        if (r.failed()) {
          std::string a = read(u, how), b = read(t, how);
          if ((a != u.m && a != t.m) || (b != t.m && b != "") || (b == "" && t.m != "" && a != t.m))
            violation("str-contents", "after a failed move the streams hold %s and %s", esc(a).c_str(), esc(b).c_str());
          u.m = a;
          t.m = b;
        } else {
          u.m = t.m;
          t.m.clear();
        }
        expect(u, how, what);
        expect(t, how, what);
        break;
      }
      default: return;
    }
    expect(x, how, what);
    if (&x != &y) expect(y, how, fmt("%s of another string", what).c_str());
  }
  void look(const Op &o) override {
    Slot &x = s[o.a % 3], &y = s[(o.a >> 4) % 3];
    long out[2] = {-9, -9};
    must(armed("compare", [&] { return drv_str_op(S_CMP, x.o, y.o, 0, 0, 0, out); }).rc, "compare");
    int c = x.m.compare(y.m);
    if (out[0] != (c < 0 ? -1 : c > 0)) violation("str-compare", "%s and %s compare as %ld", esc(x.m).c_str(), esc(y.m).c_str(), out[0]);
    expect(x, (o.c & 1) ? 3 : 1, "being read");
  }
  void finish() override {
    for (auto &x : s) { expect(x, 1, "everything"); drop(x); }
    for (auto &x : q) { expect(x, 1, "everything"); drop(x); }
  }
};
static const int str_ops[] = {S_CTOR, S_CSTR, S_CSTR, S_CSTR, S_RANGE, S_COUNT, S_COPY, S_COPY, S_PLUS, S_PLUS, S_APPEND, S_APPEND, S_APPEND, S_EQ, S_EQ, S_CLEAR, S_ERASE, S_SET, S_CMP, S_CMP, S_CMPC, S_CMPC, SS_PUT, SS_PUT, SS_PUT, SS_STR, SS_CLEAR, SS_MOVE};
static Op gen_str_op(Rng &r) {
  Op o;
  o.code = r.pick(str_ops);
  o.a = (i64)(r.below(3) | r.below(3) << 4 | r.below(3) << 8 | r.below(4) << 12);
  o.b = (i64)r.below(1 << 12);
  o.c = (i64)(r.below(16) | r.below(1 << r.below(6)) << 4);
  return o;
}
static void gen_str(Rng &r, Plan &p) {
  p.cfg = {(i64)r.next() & 0xffff, 0};
  int k = hist_len(r, 3 + (int)r.below(r.below(4) ? 20 : 60));
  bool big = r.below(150) == 0;  // long texts
  if (big) {
    p.cfg[1] = edge_size(r, 20000);
    k = 3 + (int)r.below(10);
  }
  for (int i = 0; i < k; i++) {
    p.ops.push_back(gen_str_op(r));
    Op &o = p.ops.back();
    i64 len = !big ? (r.below(20) ? -1 : (i64)r.below(400)) : r.below(2) ? p.cfg[1] + r.range(-1, 1) : -1;
    if (len >= 0) o.c = (o.c & 15) | len << 4;
    if (big && i < 2) o.code = S_RANGE - (int)(o.b & 1), o.c = (o.c & 15) | p.cfg[1] << 4;
  }
}
static std::string show_str_op(const Op &o) {
  static const char *const n[] = {"string()", "string(cstr)", "string(range)", "string(count)", "copy-construct from", "destroy", "+=", "= sum with", "=", "clear", "erase", "set", "compare", "compare cstr", "to_string(int)", "to_string(int64)", "ss()", "~ss", "ss <<", "ss.clear", "ss = move", "ss.str +=", "to_string(unsigned)", "to_string(uint64)", "to_string(float)", "to_string(double)", "stod"};
  return fmt("#%lld %s #%lld (%lld, %lld) stream %lld,%lld", (long long)o.a % 3, n[o.code], (long long)(o.a >> 4) % 3, (long long)o.b, (long long)o.c, (long long)(o.a >> 12) & 1, (long long)(o.a >> 13) & 1);
}
static void run_str(const Plan &p) {
  reset_registry();
  run_machine(new StrM(p.cfg[1]), p);
}
static Register r_str({"str_hist", "P12", "histories of operations on strings and string streams under failing allocations",
                       bit(K_ALLOC) | SF_NOPREEMPT, 2000000, gen_str, run_str, [](const Plan &, const Op &o) { return show_str_op(o); }});

// ================================================== P21: numbers as text and back
// N_OUT: a to_string; c: which, bit 3: also read back. N_IN: text into a number; a the digits (a decimal
// number), b the exponent + 2000, c: bit 0 float, 1 minus, 2 'E', 3 '+', 4 no exponent, 5-7 zeros in front,
// 8-12 digits behind the point (31: no point)
enum { N_OUT, N_IN };
struct NumM : Machine {
  static std::string esc(const std::string &t) { return StrM::esc(t); }
  static double dbl(i64 w) { double d; memcpy((void *)&d, (void *)&w, 8); return d; }
  static float flt(i64 w) { float f; int v = (int)w; memcpy((void *)&f, (void *)&v, 4); return f; }
  // significant digits without zeros at either end, and where the point is
  static std::string digits(const std::string &t, int *ex) {
    std::string d;
    int dot = -1, e = 0;
    size_t i = t[0] == '-';
    for (; i < t.size() && t[i] != 'e' && t[i] != 'E'; i++)
      if (t[i] == '.') dot = (int)d.size();
      else d += t[i];
    if (i < t.size()) e = atoi(t.c_str() + i + 1);
    if (dot < 0) dot = (int)d.size();
    while (d.size() > 1 && d[0] == '0') d.erase(0, 1), dot--;
    while (d.size() > 1 && d[d.size() - 1] == '0') d.erase(d.size() - 1);
    *ex = d == "0" ? 0 : e + dot;
    return d;
  }
  static bool same(double a, double b) { return a != a ? b != b : memcmp((void *)&a, (void *)&b, 8) == 0; }
  static std::string input(const Op &o) {
    std::string m = fmt("%llu", (unsigned long long)o.a), t;
    int point = (int)(o.c >> 8 & 31);
    if (point < 31) {
      while ((int)m.size() < point) m.insert(0, "0");
      m.insert(m.size() - point, ".");
    }
    t = (o.c & 2 ? "-" : "") + std::string(o.c >> 5 & 7, '0') + m;
    if (!(o.c & 16)) t += fmt("%c%s%s%lld", o.c & 4 ? 'E' : 'e', o.b < 2000 ? "-" : o.c & 8 ? "+" : "", std::string(o.c >> 13 & 7, '0').c_str(), (long long)std::abs(o.b - 2000));
    return t;
  }
  static std::string what_of(const Op &o) {
    static const char *const n[] = {"int", "int64", "unsigned", "uint64", "float", "double"};
    if (o.code == N_IN) return fmt("%s(%s)", o.c & 1 ? "stof" : "stod", input(o).c_str());
    int k = (int)(o.c & 7) % 6;
    std::string v = k == 0 ? fmt("%d", (int)o.a) : k == 1 ? fmt("%lld", (long long)o.a) : k == 2 ? fmt("%u", (unsigned)o.a)
                    : k == 3 ? fmt("%llu", (unsigned long long)o.a) : k == 4 ? fmt("%.9g", flt(o.a)) : fmt("%.17g", dbl(o.a));
    return fmt("to_string(%s %s)", n[k], v.c_str());
  }
  // a string of the code under test, from the harness's text
  struct Str {
    void *o;
    Str() : o(heap_alloc(drv_str_sizeof(0))) {}
    ~Str() { heap_free(o); }
    Str(const Str &) = delete;
  };
  static double parse(void *str, bool single, const char *what) {
    long out[1] = {0};
    Rc r = armed(what, [&] { return drv_str_op(single ? S_STOF : S_STOD, str, 0, 0, 0, 0, out); });
    if (r.failed()) violation("failed-without-cause", "%s failed", what);
    return single ? (double)flt(out[0]) : dbl(out[0]);
  }
  static std::string text_of(void *str) {
    long size, len, empty;
    SimBuf<char> b(256);
    must(drv_str_read(0, str, 0, b.p, 256, &size, &len, &empty), "reading a string");
    if (size < 1 || size >= 255 || b[size]) violation("num-text", "a number became a text of %ld characters", size);
    return std::string(b.p, size);
  }
  void step(const Op &o) override {
    std::string w = what_of(o);
    const char *what = w.c_str();
    done++;
    Str x;
    if (o.code == N_IN) {
      std::string t = input(o);
      char *e;
      double want = o.c & 1 ? (double)strtof(t.c_str(), &e) : strtod(t.c_str(), &e);
      if (*e) return;
      StrM::Buf b(t, true);
      Rc r = armed("construction", [&] { return drv_str_op(S_CSTR, x.o, 0, b.p, 0, 0, 0); });
      if (r.failed()) return;
      double got = parse(x.o, o.c & 1, what);
      SIM_PROBE("num: text read");
      if (want == 0 || want - want != 0) SIM_PROBE("num: text beyond the smallest or largest number");
      if (!same(got, want)) violation("num-read", "%s is %.17g, expected %.17g", what, got, want);
      must(drv_str_op(S_DTOR, x.o, 0, 0, 0, 0, 0), "destruction");
      return;
    }
    static const int ops[] = {S_TOSTR, S_TOSTR64, S_TOSTRU, S_TOSTRU64, S_TOSTRF, S_TOSTRD};
    int k = (int)(o.c & 7) % 6;
    Rc r = armed(what, [&] { return drv_str_op(ops[k], x.o, 0, 0, (long)o.a, 0, 0); });
    if (r.failed()) {
      SIM_PROBE("num: no memory for the text");
      return;
    }
    std::string t = text_of(x.o);
    if (k < 4) {
      std::string want = k == 0 ? std::to_string((int)o.a) : k == 1 ? std::to_string((long long)o.a) : k == 2 ? std::to_string((unsigned)o.a) : std::to_string((u64)o.a);
      if (t != want) violation("num-text", "%s is %s", what, esc(t).c_str());
    } else {
      double v = k == 4 ? flt(o.a) : dbl(o.a);
      char *e;
      double r = k == 4 ? (double)strtof(t.c_str(), &e) : strtod(t.c_str(), &e);
      if (*e || !same(v, r)) violation("num-text", "%s is %s, which reads back as %.17g", what, esc(t).c_str(), r);
      if (v - v == 0) {
        char b[64];
        auto q = k == 4 ? std::to_chars(b, b + 63, (float)v, std::chars_format::scientific) : std::to_chars(b, b + 63, v, std::chars_format::scientific);
        *q.ptr = 0;
        int e1, e2;
        std::string d1 = digits(t, &e1), d2 = digits(b, &e2);
        if (d1 != d2 || e1 != e2) violation("num-shortest", "%s is %s, the shortest text is %s", what, esc(t).c_str(), b);
        SIM_PROBE("num: floating point as text");
        if (o.c & 8) {
          double y = parse(x.o, k == 4, "reading the text back");
          if (!same(y, v)) violation("num-read", "%s is %s, which stof/stod reads as %.17g", what, esc(t).c_str(), y);
        }
      }
    }
    must(drv_str_op(S_DTOR, x.o, 0, 0, 0, 0, 0), "destruction");
  }
  void look(const Op &) override {}
  void finish() override {}
};
static double gen_double(Rng &r) {
  static const double edge[] = {0, 1, 0.1, 0.5, 1.5, 1e10, 123456789, 1e22, 1e23, 9007199254740992.0, 9007199254740994.0, 3.4028234663852886e38, 1.1754943508222875e-38, 1.401298464324817e-45, 16777216, 4.9406564584124654e-324, 2.2250738585072014e-308, 1.7976931348623157e308, 8388608, 4294967295.0, 9.5367431640625e-7, 5e-5, 1e15, 1e16, 1e17, 1e-5};
  double d;
  u64 w;
  switch (r.below(9)) {
    case 0: d = r.pick(edge); break;
    case 1: d = (double)(r.next() >> r.below(64)); break;                                           // integers of all sizes
    case 2: d = __builtin_ldexp((double)(r.next() >> (11 + r.below(52))), -(int)r.below(75)); break;  // binary fractions
    case 3: d = strtod(fmt("%llue%d", (unsigned long long)(r.next() >> (8 + r.below(56))), (int)r.range(-40, 40)).c_str(), nullptr); break;  // few decimal digits
    case 4: d = __builtin_ldexp(1, (int)r.range(-1074, 1023)); break;
    case 5: d = strtod(fmt("1e%d", (int)r.range(-323, 308)).c_str(), nullptr); break;
    case 6: d = (double)(1ull << 53) * (double)(1u << r.below(11)) + (double)r.below(1 << 20) * 4096; break;
    default: {
      w = r.next();
      int v = (int)r.below(4);
      if (v == 0) w = (w & ~0x7ff0000000000000ull) | (u64)(1023 + r.range(-40, 80)) << 52;
      if (v == 1) w &= ~((1ull << r.below(52)) - 1);
      if (v == 2) w &= r.below(2) ? 0x800fffffffffffffull : 0x801fffffffffffffull;  // subnormal or just not
      memcpy((void *)&d, (void *)&w, 8);
    }
  }
  memcpy((void *)&w, (void *)&d, 8);
  if (r.below(4) == 0) w += (u64)r.range(-2, 2);  // neighbours
  if (r.below(4) == 0) w ^= 1ull << 63;
  memcpy((void *)&d, (void *)&w, 8);
  return d;
}
// a decimal number k * 2^j * 10^t that lies exactly halfway between two floats or doubles; returns k * 5^t
static u64 gen_tie(Rng &r, bool single, u64 &k, int &t) {
  t = (int)r.below(single ? 11 : 23);
  u64 p = 1, top = 1ull << (single ? 25 : 54);
  for (int i = 0; i < t; i++) p *= 5;
  u64 lo = top / 2 / p + 1, hi = top / p;
  k = (lo + (hi > lo ? r.next() % (hi - lo) : 0)) | 1;
  return k * p;
}
static Op gen_num_op(Rng &r) {
  Op o;
  o.b = 0;
  o.code = r.below(3) ? N_OUT : N_IN;
  if (o.code == N_OUT) {
    int k = (int)r.below(9);
    if (k > 5) k = 5 - k % 2;
    o.c = k | (r.below(2) << 3);
    if (k < 4) {
      static const i64 edge[] = {0, 1, -1, 9, 10, -10, 99, 100, 2147483647ll, -2147483647ll, -2147483648ll, 4294967295ll, 4294967296ll, 999999999ll, 1000000000ll,
                                 (1ll << 46), -(1ll << 46), 1000000000000ll, 9223372036854775807ll, -9223372036854775807ll, (i64)(1ull << 63), (i64)10000000000000000000ull, (i64)9999999999999999999ull, (i64)~0ull};
      o.a = r.below(2) ? r.pick(edge) : (i64)(r.next() >> r.below(63)) * (r.below(2) ? 1 : -1);
    } else if (k == 4) {
      float f = (float)gen_double(r);
      int w = (int)r.next();
      if (r.below(3)) memcpy((void *)&w, (void *)&f, 4);
      if (r.below(6) == 0) w += (int)r.range(-2, 2);
      if (r.below(8) == 0) {
        u64 k;
        int t;
        u64 h = gen_tie(r, true, k, t) / 2 + r.below(2);
        f = __builtin_ldexpf((float)h, 1 + t + (int)r.below(8 + 3 * t));
        memcpy((void *)&w, (void *)&f, 4);
      }
      o.a = w;
    } else {
      double d = gen_double(r);
      if (r.below(8) == 0) {
        u64 k;
        int t;
        u64 h = gen_tie(r, false, k, t) / 2 + r.below(2);
        d = __builtin_ldexp((double)h, 1 + t + (int)r.below(8 + 3 * t));
      }
      memcpy((void *)&o.a, (void *)&d, 8);
    }
    return o;
  }
  bool single = r.below(2);
  int nd = single ? 9 : 17;
  u64 lim = single ? 999999999ull : 99999999999999999ull, m;
  switch (r.below(5)) {
    case 0: m = r.next() % (lim + 1); break;
    case 1: m = (single ? 1ull << 24 : 1ull << 53) + (r.next() % (single ? 1ull << 24 : 1ull << 53) | 1); break;  // halfway between two numbers
    case 2: m = r.below(1000); break;
    case 3: {  // the digits of a number
      char b[64];
      snprintf(b, sizeof b, "%.*e", (int)r.below(nd), gen_double(r));
      int e;
      m = strtoull(NumM::digits(std::string(b), &e).c_str(), nullptr, 10);
      break;
    }
    default: m = r.next() >> r.below(64);
  }
  while (m > lim) m /= 10;
  if (r.below(3) == 0) while (m && m % 10 && m * 5 <= lim) m *= 5;  // exact binary fractions
  o.a = (i64)m;
  int span = single ? 60 : 345;
  o.b = 2000 + (r.below(4) == 0 ? r.range(-1990, 1990) : r.below(2) ? r.range(-span, span) : r.range(-30, 30));
  if (r.below(6) == 0) {  // as close to the middle of two numbers as a text of that many digits can get
    const HardNum &h = single ? hard_f[r.below(sizeof hard_f / sizeof *hard_f)] : hard_d[r.below(sizeof hard_d / sizeof *hard_d)];
    int point = r.below(2) ? 31 : (int)r.below(20);
    o.a = (i64)h.m;
    o.b = 2000 + h.e + (point == 31 ? 0 : point);
    o.c = single | r.below(8) << 1 | point << 8;
    return o;
  }
  if (r.below(10) == 0) {
    int t;
    gen_tie(r, single, m, t);
    if (m > lim) m = lim;
    for (u64 j = r.below(56); j && m * 2 <= lim; j--) m *= 2;
    o.a = (i64)m;
    o.b = 2000 + t;
    o.c = single | r.below(8) << 1 | (t == 0) << 4 | 31 << 8;
    return o;
  }
  if (r.below(6) == 0)
    for (u64 j = r.below(17); j && m && m * 10 <= lim; j--) m *= 10;  // zeros at the end
  o.a = (i64)m;
  o.c = single | r.below(16) << 1 | (r.below(3) == 0) << 4 | (r.below(5) ? 0 : r.below(8) << 5) | (r.below(3) ? r.below(20) : 31) << 8 | (r.below(6) ? 0 : r.below(8) << 13);
  return o;
}
static void gen_num(Rng &r, Plan &p) {
  int n = (int)r.below(4);  // threads besides the first
  if (r.below(2)) n = 0;
  p.cfg = {(i64)r.next() & 0xffff, n};
  int k = n ? 1 + (int)r.below(4) : hist_len(r, 1 + (int)r.below(12));
  for (int t = 0; t <= n; t++)
    for (int i = 0; i < k; i++) {
      Op o = gen_num_op(r);
      o.thr = t;
      p.ops.push_back(o);
    }
}
struct NumCl {
  const Plan *p;
  int t;
};
static void num_client(void *v) {
  NumCl *c = (NumCl *)v;
  NumM m;
  for (const Op &o : c->p->ops)
    if (o.thr == c->t) m.step(o);
}
static void run_num(const Plan &p) {
  reset_registry();
  int n = (int)p.cfg[1];
  several = n > 0;
  NumCl cl[8];
  int ids[8];
  for (int t = 0; t <= n; t++) cl[t] = {&p, t};
  for (int t = 1; t <= n; t++) ids[t] = spawn(num_client, &cl[t], fmt("client%d", t).c_str());
  num_client(&cl[0]);
  for (int t = 1; t <= n; t++) join(ids[t]);
  note_trivial(p.ops.empty());
  check_all_gone();
}
static Register r_num({"num_text", "P21", "threads turning numbers into text and text into numbers, with failing allocations",
                       bit(K_ALLOC), 2000000, gen_num, run_num, [](const Plan &, const Op &o) { return NumM::what_of(o); }});

// =============================================================== P13: unique_ptr
static const char *const ut_name[] = {"unique_ptr<T,D>", "unique_ptr<T>", "unique_ptr<T[]>", "unique_ptr<T[],D>", "unique_ptr<T,void(*)(T*)>", "unique_ptr<T,D&>"};
struct UptrM : Machine {
  int ty;
  struct Slot {
    void *o = nullptr;
    const void *p = nullptr;
    long v = 0, d = 0;
    int k = 0;  // UT_REF: which deleter it refers to
  } s[3];
  long ids[8] = {11, 12, 13, 14, 15, 16, 17, 18};
  void *refs = nullptr;
  std::vector<const void *> released;
  std::map<const void *, std::pair<long, int>> info;  // object -> value, number of array elements
  bool arr() const { return ty == UT_ARR || ty == UT_ARRD; }
  bool own() const { return ty == UT_DEL || ty == UT_ARRD; }  // a deleter with state of its own
  bool dels() const { return own() || ty == UT_FN || ty == UT_REF; }
  long asked(long d) const { return ty == UT_FN ? d & 3 : own() ? d : 0; }
  long del_of(const Slot &x) const { return ty == UT_REF ? ids[x.k] : x.d; }
  explicit UptrM(int t) : ty(t) {
    if (ty == UT_REF) {
      long own[8];  // the driver's accesses are part of the history, this object's address is not
      std::copy(ids, ids + 8, own);
      refs = drv_uptr_refs(own);
    }
    for (auto &x : s) make(x);
  }
  void make(Slot &x) {
    x.o = heap_alloc(drv_uptr_sizeof(ty));
    long out[4] = {0, 0, 0, (long)refs};
    must(drv_uptr_op(ty, U_CTOR, x.o, 0, 0, 0, out), "construction");
    x.p = nullptr;
    x.v = x.d = x.k = 0;
    expect(x, "construction");
  }
  void expect(Slot &x, const char *what) {
    const void *p;
    long v = -5, d = -5;
    int nn;
    drv_uptr_get(ty, x.o, &p, &v, &d, &nn);
    if (p != x.p) violation("uptr-value", "%s after %s: get() is %s, expected %s", ut_name[ty], what, p ? "an object" : "null", x.p ? "another object" : "null");
    if (nn != (p != nullptr)) violation("uptr-value", "%s after %s: get(), bool and comparisons with nullptr disagree", ut_name[ty], what);
    if (p && v != x.v) violation("uptr-value", "%s after %s: the object is %ld, expected %ld", ut_name[ty], what, v, x.v);
    if (dels() && d != del_of(x)) violation("uptr-deleter", "%s after %s: deleter %ld, expected %ld", ut_name[ty], what, d, del_of(x));
  }
  void step(const Op &o) override {
    Slot &x = s[o.a % 3], &y = s[(o.a >> 4) % 3];
    long out[4] = {0, 0, 0, (long)refs}, val = 1 + o.b % 1000, del = 1 + o.c % 50;
    const char *what = "";
    std::vector<std::pair<const void *, long>> want;  // deletions
    deleted.clear();
    reentered = 0;
    done++;
    auto created = [&]() {
      if (out[0]) info[(const void *)out[0]] = {val, arr() ? 1 + (int)(val % 4) : 1};
      return (const void *)out[0];
    };
    switch (o.code) {
      case U_CTOR: case U_CTORP: case U_CONV: case U_MOVE: {
        if (o.code == U_MOVE && &x == &y) return;
        what = "construction";
        if (x.p) want.push_back({x.p, del_of(x)});
        drv_uptr_op(ty, U_DTOR, x.o, 0, 0, 0, out);
        heap_free(x.o);
        x.o = heap_alloc(drv_uptr_sizeof(ty));
        Rc r = armed(what, [&] { return drv_uptr_op(ty, o.code, x.o, y.o, val, del, out); });
        if (r.failed()) {
          heap_free(x.o);
          make(x);
          break;
        }
        if (o.code == U_CTOR) { x.p = nullptr; x.d = ty == UT_FN || (own() && (val & 3) < 2) ? asked(del) : 0; x.k = (int)(del & 7); }
        else if (o.code == U_MOVE) { x.p = y.p; x.v = y.v; x.d = y.d; x.k = y.k; y.p = nullptr; }
        else { x.p = created(); x.v = val; x.d = asked(del); x.k = (int)(del & 7); }
        break;
      }
      case U_CONVASSIGN: {
        what = "assignment";
        const void *old = x.p;
        Rc r = armed(what, [&] { return drv_uptr_op(ty, o.code, x.o, 0, val, del, out); });
        if (r.failed()) break;
        if (old) want.push_back({old, del_of(x)});
        x.p = created();
        x.v = val;
        x.d = asked(del);
        ids[x.k] = ids[del & 7];  // a reference to a deleter is assigned through
        break;
      }
      case U_MOVEASSIGN: {
        what = "move assignment";
        if (x.p && &x != &y) want.push_back({x.p, del_of(x)});
        must(armed(what, [&] { return drv_uptr_op(ty, o.code, x.o, y.o, 0, 0, out); }).rc, what);
        if (&x == &y) { SIM_PROBE("uptr: moved to itself"); break; }
        x.p = y.p; x.v = y.v; x.d = y.d;
        ids[x.k] = ids[y.k];
        y.p = nullptr;
        break;
      }
      case U_RESET: case U_NULL: {
        what = o.code == U_RESET ? "reset" : "= nullptr";
        bool fresh = o.code == U_RESET && (o.b & 1);
        if (own()) drv_uptr_own(ty, x.o, x.o);
        Rc r = armed(what, [&] { return drv_uptr_op(ty, o.code, x.o, 0, fresh ? val : 0, 0, out); });
        if (own()) drv_uptr_own(ty, x.o, nullptr);
        if (r.failed()) break;
        if (x.p) want.push_back({x.p, del_of(x)});
        x.p = fresh ? created() : nullptr;
        x.v = val;
        if (reentered) {
          SIM_PROBE("uptr: the deleter reset the pointer that runs it");
          if (x.p) want.push_back({x.p, del_of(x)});
          x.p = nullptr;
        }
        break;
      }
      case U_RELEASE:
        what = "release";
        must(armed(what, [&] { return drv_uptr_op(ty, o.code, x.o, 0, 0, 0, out); }).rc, what);
        if ((const void *)out[0] != x.p) violation("uptr-value", "release() returns something else than get()");
        if (x.p) released.push_back(x.p);
        x.p = nullptr;
        break;
      case U_SWAP:
        what = "swap";
        must(armed(what, [&] { return drv_uptr_op(ty, o.code, x.o, y.o, o.b, 0, out); }).rc, what);
        std::swap(x.p, y.p); std::swap(x.v, y.v); std::swap(x.d, y.d); std::swap(ids[x.k], ids[y.k]);
        break;
      case U_CMP: {
        what = "comparison";
        must(armed(what, [&] { return drv_uptr_op(ty, o.code, x.o, y.o, 0, 0, out); }).rc, what);
        long e = rel6(three_way((uintptr_t)x.p, (uintptr_t)y.p)), c = three_way((uintptr_t)x.p, (uintptr_t)0), e1 = rel6((int)c) | rel6((int)-c) << 6;
        if (out[0] != e) violation("uptr-compare", "%s: == != < > <= >= of two pointers say %lx, expected %lx", ut_name[ty], out[0], e);
        if (out[2] != (e | rel6(three_way((uintptr_t)y.p, (uintptr_t)x.p)) << 6)) violation("uptr-compare", "%s: comparisons with a pointer of another type say %lx", ut_name[ty], out[2]);
        if (out[1] != e1) violation("uptr-compare", "%s: comparisons of a pointer with nullptr say %lx, expected %lx", ut_name[ty], out[1], e1);
        break;
      }
      default: return;
    }
    settle(want, what);
    expect(x, what);
    if (&x != &y) expect(y, what);
  }
  void settle(const std::vector<std::pair<const void *, long>> &want, const char *what) {
    if (dels()) {
      if (deleted.size() != want.size()) violation("uptr-deletions", "%s: %s ran the deleter %zu time(s), expected %zu", ut_name[ty], what, deleted.size(), want.size());
      for (auto &w : want)
        if (std::find(deleted.begin(), deleted.end(), w) == deleted.end())
          violation("uptr-deletions", "%s: %s did not delete the object it held, or with the wrong deleter", ut_name[ty], what);
    }
    for (auto &w : want) {
      if (objs.count(w.first)) violation("uptr-leak", "%s: %s did not delete the object it held", ut_name[ty], what);
      info.erase(w.first);
    }
    size_t n = 0;
    for (auto &e : info) n += e.second.second;
    if (!several && objs.size() != n) violation("uptr-leak", "%s: after %s %zu objects are alive, expected %zu", ut_name[ty], what, objs.size(), n);
  }
  void look(const Op &o) override { expect(s[o.a % 3], "being read"); }
  void finish() override {
    for (auto &x : s) {
      std::vector<std::pair<const void *, long>> want;
      deleted.clear();
      if (x.p) want.push_back({x.p, del_of(x)});
      long out[4] = {0, 0, 0, (long)refs};
      must(drv_uptr_op(ty, U_DTOR, x.o, 0, 0, 0, out), "destruction");
      heap_free(x.o);
      settle(want, "destruction");
    }
    if (refs) drv_uptr_norefs(refs);
    for (const void *p : released) {
      drv_obj_delete(ty, p);
      info.erase(p);
    }
  }
};
static const int uptr_ops[] = {U_CTOR, U_CTORP, U_CTORP, U_CTORP, U_MOVE, U_MOVE, U_MOVEASSIGN, U_MOVEASSIGN, U_MOVEASSIGN, U_RESET, U_RESET, U_RESET, U_RELEASE, U_SWAP, U_SWAP, U_NULL, U_CONV, U_CONV, U_CONVASSIGN, U_CONVASSIGN, U_CMP, U_CMP};
static Op gen_uptr_op(Rng &r) {
  Op o;
  o.code = r.pick(uptr_ops);
  o.a = (i64)(r.below(3) | r.below(3) << 4);
  o.b = (i64)r.below(1000);
  o.c = (i64)r.below(50);
  return o;
}
static void gen_uptr(Rng &r, Plan &p) {
  p.cfg = {(i64)r.next() & 0xffff, (i64)r.below(UT_N)};
  int k = hist_len(r, 3 + (int)r.below(24));
  for (int i = 0; i < k; i++) p.ops.push_back(gen_uptr_op(r));
}
static void run_uptr(const Plan &p) {
  reset_registry();
  run_machine(new UptrM((int)p.cfg[1] % UT_N), p);
}
static std::string show_uptr_op(int ty, const Op &o) {
  static const char *const n[] = {"construct", "construct(new)", "move-construct from", "move-assign from", "reset", "release", "swap with", "destroy", "= nullptr", "converting construct", "converting assign", "compare with"};
  return fmt("%s #%lld %s #%lld (%lld)", ut_name[ty], (long long)o.a % 3, n[o.code], (long long)(o.a >> 4) % 3, (long long)o.b);
}
static std::string show_uptr(const Plan &p, const Op &o) { return show_uptr_op((int)p.cfg[1] % UT_N, o); }
static Register r_uptr({"uptr_hist", "P13", "histories of moves, resets, releases and swaps with re-entrant deleters and failing allocations",
                        bit(K_ALLOC) | bit(K_REENTER) | SF_NOPREEMPT, 2000000, gen_uptr, run_uptr, show_uptr});

// ================================================================= P14: optional
static const char *const ot_name[] = {"optional<Elem>", "optional<string>", "optional<int>", "optional<T with throwing moves>", "optional<T with throwing move construction>", "optional<T with throwing move assignment>", "optional<T with a throwing swap>", "optional<T partly compared>"};
struct OptM : Machine {
  int ty;
  struct Slot {
    void *o = nullptr;
    bool has = false;
    long v = 0;
  } s[3];
  explicit OptM(int t) : ty(t) {
    for (auto &x : s) make(x);
  }
  void make(Slot &x) {
    x.o = heap_alloc(drv_opt_sizeof(ty));
    long out[2];
    must(drv_opt_op(ty, O_CTOR, x.o, 0, 1, 0, out), "construction");
    x.has = false;
    expect(x, "construction");
  }
  void drop(Slot &x) {
    long out[2];
    must(armed("destruction", [&] { return drv_opt_op(ty, O_DTOR, x.o, 0, 0, 0, out); }).rc, "destruction");
    heap_free(x.o);
  }
  void get(Slot &x, bool &has, long &v) {
    int h = -1;
    v = -55;
    drv_opt_get(ty, x.o, &h, &v);
    if (h == 2 || h == 3) violation("opt-access", "%s: %s", ot_name[ty], h == 2 ? "has_value() and bool disagree" : "accessors refer to different objects");
    has = h == 1;
  }
  void expect(Slot &x, const char *what) {
    bool h;
    long v;
    get(x, h, v);
    if (h != x.has || (h && v != x.v))
      violation("opt-value", "%s after %s: %s, expected %s", ot_name[ty], what, h ? fmt("holds %ld", v).c_str() : "empty", x.has ? fmt("%ld", x.v).c_str() : "empty");
  }
  bool counted() const { return ty != OT_STR && ty != OT_INT && ty != OT_ODD; }
  size_t live() const {
    size_t n = 0;
    if (counted()) for (auto &x : s) n += x.o && x.has;
    return n;
  }
  void moved(Slot &y) {  // a moved-from optional still holds a (moved-from) value
    bool h;
    long v;
    get(y, h, v);
    if (h != y.has) violation("opt-value", "%s: moving from an optional that %s a value leaves it %s", ot_name[ty], y.has ? "holds" : "does not hold", h ? "full" : "empty");
    if (h && v != y.v && v != (ty == OT_STR ? 0 : -7)) violation("opt-value", "%s: a moved-from optional holds %ld", ot_name[ty], v);
    y.v = v;
  }
  void step(const Op &o) override {
    Slot &x = s[o.a % 3], &y = s[(o.a >> 4) % 3];
    long v = 1 + o.b % 100000, out[3] = {-9, -9, -9};
    const char *what = "";
    done++;
    u64 c0 = cnt[CNT_MCOPY];
    switch (o.code) {
      case O_CTOR: case O_VALUE: case O_COPY: case O_MOVE: case O_CONV: {
        if (&x == &y && (o.code == O_COPY || o.code == O_MOVE)) return;
        what = "construction";
        drop(x);
        x.has = false;
        x.o = heap_alloc(drv_opt_sizeof(ty));
        Rc r = armed(what, [&] { return drv_opt_op(ty, o.code, x.o, y.o, v, o.c, out); });
        if (r.failed()) { SIM_PROBE("opt: construction failed"); heap_free(x.o); make(x); if (o.code == O_MOVE) moved(y); break; }
        x.has = o.code == O_VALUE || (o.code == O_CONV && (o.c & 1)) || ((o.code == O_COPY || o.code == O_MOVE) && y.has);
        x.v = o.code == O_VALUE || o.code == O_CONV ? v : y.v;
        if (o.code == O_MOVE) moved(y);
        break;
      }
      case O_ASSIGN: case O_MOVEASSIGN: {
        what = o.code == O_ASSIGN ? "copy assignment" : "move assignment";
        Rc r = armed(what, [&] { return drv_opt_op(ty, o.code, x.o, y.o, 0, 0, out); });
        if (r.failed()) { SIM_PROBE("opt: assignment failed"); if (o.code == O_MOVEASSIGN) moved(y); break; }
        if (!out[0]) violation("opt-assign", "assignment does not return the optional");
        x.has = y.has;
        x.v = y.v;
        if (o.code == O_MOVEASSIGN) moved(y);
        break;
      }
      case O_SETVAL: {
        what = "assignment of a value";
        Rc r = armed(what, [&] { return drv_opt_op(ty, o.code, x.o, 0, v, o.c, out); });
        if (!r.failed()) {
          x.has = true;
          x.v = v;
          if (!out[0]) violation("opt-assign", "assignment does not return the optional");
        }
        break;
      }
      case O_OWN: {
        if (!x.has) return;
        what = "assignment of its own value";
        Rc r = armed(what, [&] { return drv_opt_op(ty, o.code, x.o, 0, 0, 0, out); });
        if (!r.failed() && !out[0]) violation("opt-assign", "assignment does not return the optional");
        break;
      }
      case O_CONVASSIGN: {
        what = "converting assignment";
        Rc r = armed(what, [&] { return drv_opt_op(ty, o.code, x.o, 0, v, o.c, out); });
        if (!r.failed()) {
          x.has = o.c & 1;
          x.v = v;
          if (!out[0]) violation("opt-assign", "converting assignment does not return the optional, or changed whether its source holds a value");
        }
        break;
      }
      case O_VALUEOF: {
        what = "value()";
        if (!x.has) return;
        Rc r = armed(what, [&] { return drv_opt_op(ty, o.code, x.o, 0, o.c, 0, out); });
        if (!r.failed() && out[0] != x.v) violation("opt-value", "%s: value() is %ld, expected %ld", ot_name[ty], out[0], x.v);
        break;
      }
      case O_MOVEOUT: {
        what = "moving the value out";
        if (!x.has && (o.c & 3) != 2) return;
        Rc r = armed(what, [&] { return drv_opt_op(ty, o.code, x.o, 0, o.c, v, out); });
        if (!r.failed() && out[0] != (x.has ? x.v : v)) violation("opt-value", "%s: moving the value out gives %ld, expected %ld", ot_name[ty], out[0], x.has ? x.v : v);
        moved(x);
        break;
      }
      case O_EMPLACE: {
        what = "emplace";
        Rc r = armed(what, [&] { return drv_opt_op(ty, o.code, x.o, 0, v, o.c, out); });
        if (!r.failed()) {
          if (!out[0]) violation("opt-assign", "emplace does not return the value it made");
          x.has = true;
          x.v = v;
        } else {  // failed making the argument (no change) or the value (empty)
          SIM_PROBE("opt: emplace failed");
          bool h;
          long w;
          get(x, h, w);
          // the argument of an element cannot fail to be made, so its construction in the optional did
          if (h && counted()) violation("opt-value", "%s: a failed emplace leaves a value", ot_name[ty]);
          if (!h) x.has = false;
        }
        break;
      }
      case O_NULL: case O_RESET:
        what = "reset";
        must(armed(what, [&] { return drv_opt_op(ty, o.code, x.o, 0, o.c, 0, out); }).rc, what);
        x.has = false;
        break;
      case O_SWAP: {
        what = "swap";
        Rc r = armed(what, [&] { return drv_opt_op(ty, o.code, x.o, y.o, o.c, 0, out); });
        if (!r.failed()) {
          std::swap(x.has, y.has);
          std::swap(x.v, y.v);
        } else {
          SIM_PROBE("opt: swap failed");
          bool hx, hy;
          long vx, vy;
          get(x, hx, vx);
          get(y, hy, vy);
          if (hx != x.has || hy != y.has) violation("opt-value", "%s: a failed swap changed which optional holds a value", ot_name[ty]);
          auto odd = [&](long v) { return !(x.has && v == x.v) && !(y.has && v == y.v) && !((ty == OT_MOVE || ty == OT_MC || ty == OT_MA) && v == -7); };
          if ((hx && odd(vx)) || (hy && odd(vy))) violation("opt-value", "%s: a failed swap left %ld and %ld", ot_name[ty], vx, vy);
          x.v = vx;
          y.v = vy;
        }
        break;
      }
      case O_VALUEOR: {
        what = "value_or";
        Rc r = armed(what, [&] { return drv_opt_op(ty, o.code, x.o, 0, v, 0, out); });
        if (!r.failed() && out[0] != (x.has ? x.v : v)) violation("opt-value", "%s: value_or(%ld) is %ld", ot_name[ty], v, out[0]);
        break;
      }
      case O_CMP: {
        what = "comparison";
        cmp(x, y, out, ty != OT_STR, v);
        break;
      }
      default: return;
    }
    no_copy(o.code == O_SWAP || o.code == O_MOVE || o.code == O_MOVEASSIGN || o.code == O_MOVEOUT || (o.code == O_SETVAL && !(o.c & 1)) ||
            (o.code == O_EMPLACE && (o.c & 3) == 3) || (o.code == O_VALUE && (o.c % 8 == 1 || o.c % 8 == 3 || o.c % 8 == 7)), c0, ot_name[ty], what);
    expect(x, what);
    if (&x != &y) expect(y, what);
    if (!several && counted() && objs.size() != live()) violation("opt-leak", "%s: after %s %zu values are alive, expected %zu", ot_name[ty], what, objs.size(), live());
  }
  void cmp(Slot &x, Slot &y, long *out, bool numeric, long v) {
    Rc r = armed("comparison", [&] { return drv_opt_op(ty, O_CMP, x.o, y.o, v, 0, out); });
    if (r.failed()) return;
    auto cmp3 = [&](bool h1, long a, bool h2, long b) {
      if (!h1 || !h2) return rel6((int)h1 - (int)h2);
      if (ty == OT_ODD) return rel6(three_way(odd_key(a), odd_key(b)), a == b);
      return rel6(numeric ? three_way(a, b) : three_way(std::to_string(a), std::to_string(b)));
    };
    long e = cmp3(x.has, x.v, y.has, y.v), e1 = rel6(x.has) | rel6(-(int)x.has) << 6, e2 = cmp3(x.has, x.v, true, v) | cmp3(true, v, x.has, x.v) << 6;
    if (out[0] != e) violation("opt-compare", "%s: == != < > <= >= say %lx, expected %lx", ot_name[ty], out[0], e);
    if (out[1] != e1) violation("opt-compare", "%s: comparisons with nullopt say %lx, expected %lx", ot_name[ty], out[1], e1);
    if (out[2] != e2) violation("opt-compare", "%s: comparisons with a value say %lx, expected %lx", ot_name[ty], out[2], e2);
  }
  void look(const Op &o) override {
    long out[3];
    cmp(s[o.a % 3], s[(o.a >> 4) % 3], out, ty != OT_STR, 1 + o.b % 100000);
  }
  void finish() override {
    for (auto &x : s) { expect(x, "everything"); drop(x); }
  }
};
static const int opt_ops[] = {O_CTOR, O_VALUE, O_VALUE, O_COPY, O_COPY, O_MOVE, O_ASSIGN, O_ASSIGN, O_ASSIGN, O_MOVEASSIGN, O_MOVEASSIGN, O_SETVAL, O_SETVAL, O_NULL, O_EMPLACE, O_EMPLACE, O_RESET, O_SWAP, O_SWAP, O_VALUEOR, O_CMP, O_CONV, O_CONV, O_CONVASSIGN, O_CONVASSIGN, O_VALUEOF, O_MOVEOUT, O_MOVEOUT, O_OWN};
static Op gen_opt_op(Rng &r) {
  Op o;
  o.code = r.pick(opt_ops);
  o.a = (i64)(r.below(3) | r.below(3) << 4);
  o.b = (i64)r.below(r.below(2) ? 4 : 100000);
  o.c = (i64)r.below(56);
  return o;
}
static void gen_opt(Rng &r, Plan &p) {
  p.cfg = {(i64)r.next() & 0xffff, (i64)r.below(OT_N)};
  int k = hist_len(r, 3 + (int)r.below(24));
  for (int i = 0; i < k; i++) p.ops.push_back(gen_opt_op(r));
}
static void run_opt(const Plan &p) {
  reset_registry();
  run_machine(new OptM((int)p.cfg[1] % OT_N), p);
}
static std::string show_opt_op(int ty, const Op &o) {
  static const char *const n[] = {"construct", "construct(value)", "copy-construct from", "move-construct from", "destroy", "copy-assign from", "move-assign from", "= value", "= nullopt", "emplace", "reset", "swap with", "value_or", "compare with", "converting construct", "converting assign", "value()", "move out of", "= own value of"};
  return fmt("%s #%lld %s #%lld (%lld)", ot_name[ty], (long long)o.a % 3, n[o.code], (long long)(o.a >> 4) % 3, (long long)o.b);
}
static std::string show_opt(const Plan &p, const Op &o) { return show_opt_op((int)p.cfg[1] % OT_N, o); }
static Register r_opt({"opt_hist", "P14", "histories of operations on optionals with throwing values and failing allocations",
                       bit(K_ALLOC) | bit(K_ELEM) | SF_NOPREEMPT, 2000000, gen_opt, run_opt, show_opt});

// ================================================================== P15: variant
struct VarM : Machine {
  int ty, nalt;
  struct Val {
    long i = -1, v = 0;  // -1: valueless
    bool operator==(const Val &o) const { return i == o.i && (i < 0 || v == o.v); }
  };
  struct Slot {
    void *o = nullptr;
    Val m;
  } s[3];
  explicit VarM(int t) : ty(t), nalt(t == WT_16 ? 16 : 4) {
    for (auto &x : s) make(x);
  }
  int op(int code, Slot &x, Slot *y, long a, long b, long how, long *out) {
    return drv_var_op(ty, code, x.o, y ? y->o : 0, a, b, how, out);
  }
  void make(Slot &x) {
    x.o = heap_alloc(drv_var_sizeof(ty));
    long out[4];
    must(op(W_CTOR, x, 0, 0, 0, 0, out), "construction");
    x.m.i = 0;
    x.m.v = 0;
    expect(x, "construction");
  }
  void drop(Slot &x) {
    long out[4];
    must(armed("destruction", [&] { return op(W_DTOR, x, 0, 0, 0, 0, out); }).rc, "destruction");
    heap_free(x.o);
    x.o = nullptr;
  }
  Val get(Slot &x) {
    long i = -50, v = 0;
    int nv = -1;
    drv_var_get(ty, x.o, &i, &v, &nv);
    if (i == -99) violation("var-access", "index(), holds_alternative, get and get_if disagree");
    if (i < -1 || i >= nalt) violation("var-access", "index() is %ld", i);
    if (nv != (i == -1)) violation("var-access", "valueless_by_exception() is %d with index %ld", nv, i);
    Val r;
    r.i = i;
    r.v = v;
    return r;
  }
  static std::string str(const Val &v) {
    static const char *const t[] = {"Elem", "int", "string", "the fourth"};
    return v.i < 0 ? "valueless" : v.i == 15 ? fmt("double %ld", v.v) : v.i > 3 ? fmt("Elem<%ld> %ld", v.i, v.v) : fmt("%s %ld", t[v.i], v.v);
  }
  void expect(Slot &x, const char *what) {
    Val g = get(x);
    if (!(g == x.m)) violation("var-value", "after %s a variant is %s, expected %s", what, str(g).c_str(), str(x.m).c_str());
  }
  // after a failure: the old value or none
  void failed(Slot &x, const char *what) {
    Val g = get(x);
    if (g.i >= 0 && !(g == x.m)) violation("var-value", "after a failed %s a variant is %s, was %s", what, str(g).c_str(), str(x.m).c_str());
    if (g.i < 0 && x.m.i >= 0) SIM_PROBE("var: became valueless");
    x.m = g;
  }
  void moved(Slot &y) {
    Val g = get(y);
    if (g.i != y.m.i) violation("var-value", "moving from a variant changed it from %s to %s", str(y.m).c_str(), str(g).c_str());
    if (g.i >= 0 && g.v != y.m.v && g.v != (g.i == 2 ? 0 : -7)) violation("var-value", "a moved-from variant is %s", str(g).c_str());
    y.m = g;
  }
  static bool counted(long i) { return i >= 0 && i != 1 && i != 2 && i != 15; }
  size_t live() const {
    size_t n = 0;
    for (auto &x : s) n += x.o && counted(x.m.i);
    return n;
  }
  bool odd(const Val &a, const Val &b) const { return ty == WT_MA && a.i == 2 && b.i == 2; }  // partly compared
  int order(const Val &a, const Val &b) const {
    if (a.i != b.i) return three_way(a.i, b.i);  // valueless first
    if (a.i < 0) return 0;
    if (odd(a, b)) return three_way(odd_key(a.v), odd_key(b.v));
    return a.i == 2 && ty < WT_MC ? three_way(std::to_string(a.v), std::to_string(b.v)) : three_way(a.v, b.v);
  }
  void step(const Op &o) override {
    Slot &x = s[o.a % 3], &y = s[(o.a >> 4) % 3];
    long alt = (o.c & 15) % nalt, how = o.c >> 4, v = 1 + o.b % 100000, out[4] = {-9, -9, -9, -9};
    const char *what = "";
    done++;
    u64 c0 = cnt[CNT_MCOPY];
    switch (o.code) {
      case W_CTOR: case W_VALUE: case W_COPY: case W_MOVE: {
        if (&x == &y && (o.code == W_COPY || o.code == W_MOVE)) return;
        what = "construction";
        drop(x);
        x.o = heap_alloc(drv_var_sizeof(ty));
        Rc r = armed(what, [&] { return op(o.code, x, &y, alt, v, how, out); });
        if (r.failed()) {
          SIM_PROBE("var: construction failed");
          heap_free(x.o);
          make(x);
          if (o.code == W_MOVE) moved(y);
          break;
        }
        if (o.code == W_CTOR) x.m.i = 0, x.m.v = 0;
        else if (o.code == W_VALUE) x.m.i = alt, x.m.v = v;
        else x.m = y.m;
        if (o.code == W_MOVE) moved(y);
        break;
      }
      case W_ASSIGN: case W_MOVEASSIGN: {
        what = o.code == W_ASSIGN ? "copy assignment" : "move assignment";
        Rc r = armed(what, [&] { return op(o.code, x, &y, 0, 0, 0, out); });
        if (r.failed()) {
          SIM_PROBE("var: assignment failed");
          failed(x, what);
          if (o.code == W_MOVEASSIGN) moved(y);
          break;
        }
        if (!out[0]) violation("var-assign", "assignment does not return the variant");
        if (y.m.i < 0) SIM_PROBE("var: assigned from a valueless variant");
        x.m = y.m;
        if (o.code == W_MOVEASSIGN) moved(y);
        break;
      }
      case W_SETVAL: case W_EMPLACE: {
        what = o.code == W_SETVAL ? "assignment of a value" : "emplace";
        Rc r = armed(what, [&] { return op(o.code, x, 0, alt, v, how, out); });
        if (r.failed()) { SIM_PROBE("var: value assignment failed"); failed(x, what); break; }
        if (!out[0]) violation("var-assign", o.code == W_EMPLACE ? "emplace does not return the value it made" : "assignment does not return the variant");
        x.m.i = alt;
        x.m.v = v;
        break;
      }
      case W_SWAP: {
        what = "swap";
        Rc r = armed(what, [&] { return op(o.code, x, &y, 0, 0, how, out); });
        if (!r.failed()) { std::swap(x.m, y.m); break; }
        SIM_PROBE("var: swap failed");
        Val a = get(x), b = get(y), p = x.m, q = y.m;
        for (Val *z : {&a, &b})
          if (z->i >= 0 && !(*z == p) && !(*z == q) && !((z->i == p.i || z->i == q.i) && z->v == -7))
            violation("var-value", "a failed swap of %s and %s left %s and %s", str(p).c_str(), str(q).c_str(), str(a).c_str(), str(b).c_str());
        x.m = a;
        y.m = b;
        break;
      }
      case W_OWN: {
        if (x.m.i < 0) return;
        what = "assignment of its own value";
        Rc r = armed(what, [&] { return op(W_OWN, x, 0, x.m.i, 0, 0, out); });
        if (r.failed()) failed(x, what);
        else if (!out[0]) violation("var-assign", "assignment does not return the variant");
        break;
      }
      case W_CMP: what = "comparison"; compare(x, y); break;
      case W_VISIT: what = "visit"; visit(x, y); break;
      case W_MOVEOUT: {
        what = "moving the value out";
        if (x.m.i < 0) return;
        Rc r = armed(what, [&] { return op(W_MOVEOUT, x, 0, x.m.i, 0, 0, out); });
        if (!r.failed() && out[0] != x.m.v) violation("var-value", "moving the value out of a variant gives %ld, and it was %s", out[0], str(x.m).c_str());
        moved(x);
        break;
      }
      default: return;
    }
    no_copy(o.code == W_SWAP || o.code == W_MOVE || o.code == W_MOVEASSIGN || o.code == W_MOVEOUT || (o.code == W_VALUE && (how & 1)) ||
            ((o.code == W_SETVAL || o.code == W_EMPLACE) && !(how & 1)), c0, "variant", what);
    expect(x, what);
    if (&x != &y) expect(y, what);
    if (!several && objs.size() != live()) violation("var-leak", "after %s %zu values are alive, expected %zu", what, objs.size(), live());
  }
  void compare(Slot &x, Slot &y) {
    long out[4] = {-9, -9, -9, -9};
    Rc r = armed("comparison", [&] { return op(W_CMP, x, &y, 0, 0, 0, out); });
    if (r.failed()) return;
    long e = rel6(order(x.m, y.m));
    if (odd(x.m, y.m)) e = rel6(order(x.m, y.m), x.m.v == y.m.v);
    if (out[0] != e) violation("var-compare", "== != < > <= >= of %s and %s say %lx, expected %lx", str(x.m).c_str(), str(y.m).c_str(), out[0], e);
    if (x.m.i < 0 || y.m.i < 0) SIM_PROBE("var: compared with a valueless variant");
  }
  void visit(Slot &x, Slot &y) {
    if (x.m.i < 0 || y.m.i < 0) return;
    long out[6] = {-9, -9, -9, -9, -9, -9}, sel = (x.m.i * 16 + y.m.i + 7 * x.m.v) & 31;
    // visiting three variants copies the last one
    Rc r = armed("visit", [&] { return op(W_VISIT, x, &y, sel, 0, 0, out); });
    if (r.failed()) return;
    if (out[0] != x.m.v * 16 + x.m.i) violation("var-visit", "visit of %s got %ld as alternative %ld", str(x.m).c_str(), out[0] >> 4, out[0] & 15);
    if (out[1] != x.m.i * 16 + y.m.i || !out[2]) violation("var-visit", "visit of %s and %s got other values", str(x.m).c_str(), str(y.m).c_str());
    if (ty == WT_4 && out[3] != (x.m.i * 16 + y.m.i) * 16 + x.m.i + 4096 * (6 * x.m.v + 3 * y.m.v)) violation("var-visit", "visit of three variants got other values");
    long e = 0, f = 1;
    for (int i = 0; i < 5; i++, f *= 100) {
      if (i == 4 && out[4] != e) violation("var-visit", "visit of four variants got other values (%ld, expected %ld)", out[4], e);
      e += f * ((sel % 7 + i) * 2 + (sel >> i & 1));
    }
    if (out[5] != e) violation("var-visit", "visit of five variants got other values (%ld, expected %ld)", out[5], e);
  }
  void look(const Op &o) override {
    expect(s[o.a % 3], "being read");
    if (o.b & 1) compare(s[o.a % 3], s[(o.a >> 4) % 3]);
    else visit(s[o.a % 3], s[(o.a >> 4) % 3]);
  }
  void finish() override {
    for (auto &x : s) { expect(x, "everything"); drop(x); }
  }
};
static const int var_ops[] = {W_CTOR, W_VALUE, W_VALUE, W_COPY, W_COPY, W_MOVE, W_ASSIGN, W_ASSIGN, W_ASSIGN, W_MOVEASSIGN, W_MOVEASSIGN, W_SETVAL, W_SETVAL, W_SETVAL, W_EMPLACE, W_EMPLACE, W_SWAP, W_SWAP, W_CMP, W_CMP, W_MOVEOUT, W_VISIT, W_OWN};
static Op gen_var_op(Rng &r, int base) {
  Op o;
  o.code = r.pick(var_ops);
  o.a = (i64)(r.below(3) | r.below(3) << 4);
  o.b = (i64)r.below(r.below(2) ? 4 : 100000);
  o.c = (i64)((base >= 0 ? (base + r.below(2)) % 16 : r.below(16)) | r.below(16) << 4);
  return o;
}
static void gen_var(Rng &r, Plan &p) {
  p.cfg = {(i64)r.next() & 0xffff, (i64)r.below(WT_N)};
  int k = hist_len(r, 3 + (int)r.below(24)), few = (int)r.below(2), base = (int)r.below(16);
  for (int i = 0; i < k; i++) p.ops.push_back(gen_var_op(r, few ? base : -1));
}
static void run_var(const Plan &p) {
  reset_registry();
  run_machine(new VarM((int)p.cfg[1] % WT_N), p);
}
static std::string show_var(const Plan &, const Op &o) {
  static const char *const n[] = {"construct", "construct(value)", "copy-construct from", "move-construct from", "destroy", "copy-assign from", "move-assign from", "= value", "emplace", "swap with", "compare with", "move out of", "visit with", "= own value of"};
  return fmt("#%lld %s #%lld (alternative %lld, %lld)", (long long)o.a % 3, n[o.code], (long long)(o.a >> 4) % 3, (long long)o.c & 15, (long long)o.b);
}
static Register r_var({"var_hist", "P15", "histories of operations on variants with throwing alternatives and failing allocations",
                       bit(K_ALLOC) | bit(K_ELEM) | SF_NOPREEMPT, 2000000, gen_var, run_var, show_var});

// ========================================================== P17: tuple and pair
static const char *const tt_name[] = {"tuple<Elem,long,Elem2>", "tuple<ElemM,string,Elem>", "tuple<empty,Elem,empty,aligned Elem,long>", "tuple<large Elem>", "tuple<Elem,ElemMA,ElemM,ElemSW,ElemMC>", "tuple<NaN-like,long,partly compared>", "pair<Elem,string>", "pair<long,ElemM>", "pair<NaN-like,NaN-like>"};
// per element: e counted, m counted with throwing moves, s string, l long, 0 empty, o partly compared, n partly compared and NaN-like
static const char *const tt_kinds[] = {"ele", "mse", "0e0el", "e", "emmem", "nlo", "es", "lm", "nn"};
struct TupM : Machine {
  int ty, n;
  const char *kinds;
  struct Vals {
    long v[6];
  };
  struct Slot {
    void *o = nullptr;
    Vals m;
  } s[3];
  bool pair() const { return ty >= TT_PAIR; }
  explicit TupM(int t) : ty(t), n((int)strlen(tt_kinds[t])), kinds(tt_kinds[t]) {
    for (auto &x : s) make(x);
  }
  int op(int code, Slot &x, Slot *y, long a, long b, long *out) { return drv_tup_op(ty, code, x.o, y ? y->o : 0, a, b, out); }
  Vals from(long v) const {
    Vals r;
    for (int i = 0; i < n; i++) r.v[i] = kinds[i] == '0' ? 0 : v + i;
    return r;
  }
  void make(Slot &x) {
    x.o = heap_alloc(drv_tup_sizeof(ty));
    long out[16];
    must(op(T_CTOR, x, 0, 0, 0, out), "construction");
    for (long &v : x.m.v) v = 0;
    expect(x, "construction");
  }
  void drop(Slot &x) {
    long out[16];
    must(armed("destruction", [&] { return op(T_DTOR, x, 0, 0, 0, out); }).rc, "destruction");
    heap_free(x.o);
    x.o = nullptr;
  }
  Vals get(Slot &x) {
    Vals r;
    long b[16];
    drv_tup_get(ty, x.o, b);
    for (int i = 0; i < n; i++) r.v[i] = b[i];
    return r;
  }
  std::string str(const Vals &v) const { return list(std::vector<long>(v.v, v.v + n)); }
  void expect(Slot &x, const char *what) {
    Vals g = get(x);
    for (int i = 0; i < n; i++)
      if (g.v[i] != x.m.v[i]) violation("tuple-value", "%s after %s: %s, expected %s", tt_name[ty], what, str(g).c_str(), str(x.m).c_str());
  }
  bool moved_from(int i, long v) const { return kinds[i] == 's' ? v == 0 : (kinds[i] == 'e' || kinds[i] == 'm') && v == -7; }
  // elements were perhaps moved away
  void moved(Slot &y, int only = -1) {
    Vals g = get(y);
    for (int i = 0; i < n; i++)
      if (g.v[i] != y.m.v[i] && !(moved_from(i, g.v[i]) && (only < 0 || i == only))) violation("tuple-value", "%s: moving from %s left %s", tt_name[ty], str(y.m).c_str(), str(g).c_str());
    y.m = g;
  }
  // after a failed assignment every element is the old one, the new one, or was moved from
  void mixed(Slot &x, const Vals &now, bool moves, const char *what) {
    Vals g = get(x);
    for (int i = 0; i < n; i++)
      if (g.v[i] != x.m.v[i] && g.v[i] != now.v[i] && !(moves && moved_from(i, g.v[i])))
        violation("tuple-value", "%s: after a failed %s it is %s, was %s", tt_name[ty], what, str(g).c_str(), str(x.m).c_str());
    x.m = g;
  }
  size_t live() const {
    size_t k = 0;
    for (int i = 0; i < n; i++) k += kinds[i] == 'e' || kinds[i] == 'm';
    size_t t = 0;
    for (auto &x : s) t += x.o ? k : 0;
    return t;
  }
  void step(const Op &o) override {
    Slot &x = s[o.a % 3], &y = s[(o.a >> 4) % 3];
    long v = 1 + o.b % 100000, out[16];
    for (long &w : out) w = -9;
    const char *what = "";
    done++;
    u64 c0 = cnt[CNT_MCOPY];
    switch (o.code) {
      case T_CTOR: case T_VALUES: case T_COPY: case T_MOVE: case T_CONV: {
        if (&x == &y && (o.code == T_COPY || o.code == T_MOVE)) return;
        if (pair() && o.code == T_CONV) return;
        what = "construction";
        drop(x);
        x.o = heap_alloc(drv_tup_sizeof(ty));
        Rc r = armed(what, [&] { return op(o.code, x, &y, v, o.c, out); });
        if (r.failed()) {
          SIM_PROBE("tuple: construction failed");
          heap_free(x.o);
          make(x);
        } else if (o.code == T_CTOR) for (long &w : x.m.v) w = 0;
        else x.m = o.code == T_COPY || o.code == T_MOVE ? y.m : from(v);
        if (o.code == T_MOVE) moved(y);
        break;
      }
      case T_ASSIGN: case T_MOVEASSIGN: {
        bool mv = o.code == T_MOVEASSIGN;
        what = mv ? "move assignment" : "copy assignment";
        Rc r = armed(what, [&] { return op(o.code, x, &y, 0, 0, out); });
        if (r.failed()) { SIM_PROBE("tuple: assignment failed"); mixed(x, y.m, mv, what); }
        else {
          if (!out[0]) violation("tuple-assign", "assignment does not return the tuple");
          x.m = y.m;
        }
        if (mv) moved(y);
        break;
      }
      case T_CONVASSIGN: case T_FWD: {
        if (pair()) return;
        what = o.code == T_FWD ? "assignment to a tuple of references" : "converting assignment";
        Rc r = armed(what, [&] { return op(o.code, x, 0, v, o.c, out); });
        if (r.failed()) { SIM_PROBE("tuple: converting assignment failed"); mixed(x, from(v), true, what); break; }
        if (!out[0]) violation("tuple-assign", o.code == T_FWD ? "forward_as_tuple refers to other objects" : "assignment does not return the tuple");
        x.m = from(v);
        break;
      }
      case T_SETONE: {
        what = "assignment of one element";
        int i = (int)(o.c % n);
        Rc r = armed(what, [&] { return op(o.code, x, 0, v, i, out); });
        if (!r.failed() && kinds[i] != '0') x.m.v[i] = v;
        break;
      }
      case T_SWAP: {
        what = "swap";
        Rc r = armed(what, [&] { return op(o.code, x, &y, o.c, 0, out); });
        if (!r.failed()) { std::swap(x.m, y.m); break; }
        SIM_PROBE("tuple: swap failed");
        Vals p = x.m, q = y.m;
        mixed(x, q, true, what);
        mixed(y, p, true, what);
        break;
      }
      case T_CMP: what = "comparison"; compare(x, y); break;
      case T_TIE: {
        if (pair()) return;
        what = "assignment to tied variables";
        Rc r = armed(what, [&] { return op(o.code, x, 0, 0, o.c, out); });
        if (!r.failed())
          for (int i = 0; i < n; i++)
            if (out[i] != x.m.v[i]) violation("tuple-tie", "%s: tie gives another value for element %d", tt_name[ty], i);
        if (o.c & 1) moved(x);
        break;
      }
      case T_CAT: what = "tuple_cat"; if (pair()) return; cat(x, y, o.c); break;
      case T_MOVEOUT: {
        if (pair()) return;
        what = "moving an element out";
        int i = (int)(o.c % n);
        Rc r = armed(what, [&] { return op(o.code, x, 0, 0, i, out); });
        if (!r.failed() && out[0] != x.m.v[i]) violation("tuple-value", "%s: moving element %d out gives %ld, expected %ld", tt_name[ty], i, out[0], x.m.v[i]);
        moved(x, i);
        break;
      }
      default: return;
    }
    no_copy(o.code == T_SWAP || o.code == T_MOVE || o.code == T_MOVEASSIGN || o.code == T_MOVEOUT || o.code == T_SETONE || (o.code == T_TIE && (o.c & 1)) ||
            ((o.code == T_CONV || o.code == T_CONVASSIGN) && !(o.c & 1)), c0, tt_name[ty], what);
    expect(x, what);
    if (&x != &y) expect(y, what);
    if (!several && objs.size() != live()) violation("tuple-leak", "%s: after %s %zu elements are alive, expected %zu", tt_name[ty], what, objs.size(), live());
  }
  void compare(Slot &x, Slot &y) {
    long out[16] = {-9};
    Rc r = armed("comparison", [&] { return op(T_CMP, x, &y, 0, 0, out); });
    if (r.failed()) return;
    int c = 0;
    bool same = true;
    for (int i = 0; i < n; i++) {
      long a = x.m.v[i], b = y.m.v[i];
      bool odd = kinds[i] == 'n' && (odd_strange(a) || odd_strange(b));
      bool part = kinds[i] == 'n' || kinds[i] == 'o';
      same = same && a == b && !odd;
      if (!c && !odd) c = kinds[i] == 's' ? three_way(a ? std::to_string(a) : "", b ? std::to_string(b) : "") : part ? three_way(odd_key(a), odd_key(b)) : three_way(a, b);
    }
    long e = rel6(c, same);
    if (out[0] != e) violation("tuple-compare", "%s: == != < > <= >= of %s and %s say %lx, expected %lx", tt_name[ty], str(x.m).c_str(), str(y.m).c_str(), out[0], e);
  }
  void cat(Slot &x, Slot &y, long how) {
    long out[16] = {-9};
    Rc r = armed("tuple_cat", [&] { return op(T_CAT, x, &y, 0, how, out); });
    if (r.failed()) return;
    for (int i = 0; i < 2 * n; i++)
      if (out[i] != (i < n ? x.m.v[i] : y.m.v[i - n])) violation("tuple-cat", "%s: element %d of tuple_cat of %s and %s is %ld", tt_name[ty], i, str(x.m).c_str(), str(y.m).c_str(), out[i]);
  }
  void look(const Op &o) override {
    if (o.b & 1 || pair()) compare(s[o.a % 3], s[(o.a >> 4) % 3]);
    else cat(s[o.a % 3], s[(o.a >> 4) % 3], 1);
  }
  void finish() override {
    for (auto &x : s) { expect(x, "everything"); drop(x); }
  }
};
static const int tup_ops[] = {T_CTOR, T_VALUES, T_VALUES, T_COPY, T_COPY, T_MOVE, T_CONV, T_ASSIGN, T_ASSIGN, T_MOVEASSIGN, T_MOVEASSIGN, T_CONVASSIGN, T_CONVASSIGN, T_SETONE, T_SETONE, T_SWAP, T_SWAP, T_CMP, T_CMP, T_CMP, T_TIE, T_TIE, T_FWD, T_CAT, T_CAT, T_MOVEOUT};
static Op gen_tup_op(Rng &r) {
  Op o;
  o.code = r.pick(tup_ops);
  o.a = (i64)(r.below(3) | r.below(3) << 4);
  o.b = (i64)r.below(r.below(2) ? 3 : 100000);
  o.c = (i64)r.below(60);
  return o;
}
static void gen_tup(Rng &r, Plan &p) {
  p.cfg = {(i64)r.next() & 0xffff, (i64)r.below(TT_N)};
  int k = hist_len(r, 3 + (int)r.below(24));
  for (int i = 0; i < k; i++) p.ops.push_back(gen_tup_op(r));
}
static void run_tup(const Plan &p) {
  reset_registry();
  run_machine(new TupM((int)p.cfg[1] % TT_N), p);
}
static std::string show_tup_op(int ty, const Op &o) {
  static const char *const n[] = {"construct", "construct(values)", "copy-construct from", "move-construct from", "converting construct", "destroy", "copy-assign from", "move-assign from", "converting assign", "assign one element", "swap with", "compare with", "tie", "assign through forward_as_tuple", "tuple_cat with", "move one element out"};
  return fmt("%s #%lld %s #%lld (%lld, %lld)", tt_name[ty], (long long)o.a % 3, n[o.code], (long long)(o.a >> 4) % 3, (long long)o.b, (long long)o.c);
}
static Register r_tup({"tuple_hist", "P17", "histories of operations on tuples and pairs with throwing elements and failing allocations",
                       bit(K_ALLOC) | bit(K_ELEM) | SF_NOPREEMPT, 2000000, gen_tup, run_tup,
                       [](const Plan &p, const Op &o) { return show_tup_op((int)p.cfg[1] % TT_N, o); }});

// ========================================================== P20: range algorithms
static const char *const at_name[] = {"array", "forward iterators", "vector", "valarray", "array of bytes", "array of signed bytes", "array of ints", "array of doubles"};
struct AlgM : Machine {
  int ty;
  long n;
  void *o;
  struct E {
    long v, id;
  };
  std::vector<E> m;
  bool plain() const { return ty >= AT_BYTE; }  // elements without identity
  size_t alive;  // elements, with those the container holds in reserve
  AlgM(int t, long k) : ty(t), n(k), m((size_t)k) {
    o = heap_alloc(drv_alg_sizeof(ty, n));
    drv_alg_make(ty, o, n);
    for (long i = 0; i < n; i++) m[i] = {drv_alg_narrow(ty, i), plain() ? 0 : i};
    alive = objs.size();
  }
  void step(const Op &p) override { run(p, false); }
  void look(const Op &p) override { run(p, true); }
  void run(const Op &p, bool reading) {
    static const char *const nm[] = {"fill", "fill with an execution policy", "max_element", "min", "max", "distance", "", "sin"};
    long i = (p.a & 0xffffff) % (n + 1), j = (p.a >> 24) % (n + 1), v = drv_alg_narrow(ty, p.b), id = plain() ? 0 : 1000 + done, out[1] = {-9};
    const char *what = nm[p.code];
    if (reading && (p.code == A_FILL || p.code == A_FILLPAR || p.code == A_SET)) return;
    if (!reading) done++;
    if (p.code == A_MIN || p.code == A_MAX) {
      if (!n) return;
      i %= n, j %= n;
    } else if (i > j) std::swap(i, j);
    if (p.code == A_SET) {
      if (!n) return;
      i %= n;
      drv_alg_set(ty, o, i, v, id);
      m[i] = {v, id};
      return;
    }
    u64 c0 = cnt[CNT_CMP], a0 = cnt[CNT_ASSIGN];
    Rc r = armed(what, [&] { return drv_alg_op(ty, o, p.code, i, j, v, id, out); });
    if (!several && (cnt[CNT_CMP] - c0 > (u64)(2 * (j - i) + 2) * (i <= j) + 2 || cnt[CNT_ASSIGN] - a0 > (u64)(2 * (j > i ? j - i : 0))))
      violation("alg-cost", "%s of %ld elements of a %s took %llu comparisons and %llu assignments", what, j - i, at_name[ty], (unsigned long long)(cnt[CNT_CMP] - c0), (unsigned long long)(cnt[CNT_ASSIGN] - a0));
    if (r.failed()) SIM_PROBE("alg: an element threw");
    long e = -1;
    switch (p.code) {
      case A_FILL: case A_FILLPAR:
        for (long k = i; k < j; k++) {
          if (!r.failed()) { m[k] = {v, id}; continue; }
          E g;
          drv_alg_get(ty, o, k, &g.v, &g.id);
          if (g.v == v && g.id == id) m[k] = g;
        }
        break;
      case A_MAXEL:
        e = i;
        for (long k = i + 1; k < j; k++) if (m[k].v > m[e].v) e = k;
        break;
      case A_MIN: e = m[j].v < m[i].v ? j : i; break;
      case A_MAX: e = m[j].v > m[i].v ? j : i; break;
      case A_DIST: e = j - i; break;
      case A_SIN:
        if (!r.failed() && out[0] == -2) violation("alg-result", "sin of a valarray of %ld elements has another size", j - i);
        if (!r.failed() && out[0] != -1) violation("alg-result", "sin of a valarray is not the sine of each element: number %ld is wrong", out[0] - i);
        break;
    }
    if (e >= 0 && !r.failed() && out[0] != e) violation("alg-result", "%s over %ld..%ld of a %s gives %ld, expected %ld", what, i, j, at_name[ty], out[0], e);
    if (!reading) check(what);
  }
  void check(const char *what) {
    for (long k = 0; k < n; k++) {
      E g;
      drv_alg_get(ty, o, k, &g.v, &g.id);
      if (g.v != m[k].v || g.id != m[k].id) violation("alg-value", "after %s element %ld of a %s is %ld (#%ld), expected %ld (#%ld)", what, k, at_name[ty], g.v, g.id, m[k].v, m[k].id);
    }
    if (!several && objs.size() != alive) violation("alg-leak", "after %s %zu elements are alive, expected %zu", what, objs.size(), alive);
  }
  void finish() override {
    check("everything");
    drv_alg_drop(ty, o, n);
    heap_free(o);
  }
};
static Op gen_alg_op(Rng &r) {
  static const int ops[] = {A_FILL, A_FILL, A_FILLPAR, A_MAXEL, A_MAXEL, A_MAXEL, A_MIN, A_MAX, A_DIST, A_SET, A_SET, A_SET, A_SIN};
  Op o;
  o.code = r.pick(ops);
  o.a = (i64)(r.below(1 << 24) | r.below(1 << 24) << 24);
  o.b = r.below(2) ? (i64)r.below(4) : (i64)r.below(2000) - 1000;
  return o;
}
static void gen_alg(Rng &r, Plan &p) {
  p.cfg = {(i64)r.next() & 0xffff, (i64)r.below(AT_N), (i64)r.below(r.below(2) ? 4 : 20)};
  int big = (int)r.below(150);
  if (big < 6) p.cfg[2] = big < 4 ? (i64)r.below(200) : edge_size(r, p.cfg[1] >= AT_BYTE ? 70000 : 2100);
  int k = hist_len(r, 2 + (int)r.below(24));
  if (p.cfg[2] > 200) k = 1 + (int)r.below(5);
  for (int i = 0; i < k; i++) {
    p.ops.push_back(gen_alg_op(r));
    if (big < 6 && r.below(3)) {  // from the start, to the end, or both
      i64 n = p.cfg[2], lo = r.below(2) ? 0 : (i64)r.below((u64)n + 1), hi = lo ? n : r.below(2) ? n : (i64)r.below((u64)n + 1);
      p.ops.back().a = lo | hi << 24;
    }
  }
}
static void run_alg(const Plan &p) {
  reset_registry();
  run_machine(new AlgM((int)p.cfg[1] % AT_N, (long)p.cfg[2]), p);
}
static std::string show_alg_op(int ty, const Op &o) {
  static const char *const nm[] = {"fill", "fill with an execution policy", "max_element", "min", "max", "distance", "set", "sin"};
  return fmt("%s: %s (%lld, %lld) %lld", at_name[ty], nm[o.code], (long long)o.a & 0xffffff, (long long)o.a >> 24, (long long)o.b);
}
static Register r_alg({"alg_hist", "P20", "histories of range algorithms over arrays, iterators and containers with throwing elements",
                       bit(K_ALLOC) | bit(K_ELEM) | SF_NOPREEMPT, 2000000, gen_alg, run_alg,
                       [](const Plan &p, const Op &o) { return show_alg_op((int)p.cfg[1] % AT_N, o); }});

// ============================================== P16: objects in several threads
enum { KD_SEQ, KD_MAP, KD_STR, KD_OPT, KD_VAR, KD_UPTR, KD_TUP, KD_ALG, KD_NUM, KD_N };
static Machine *new_machine(int kind, int ty) {
  switch (kind) {
    case KD_SEQ: return new SeqM(ty % VT_N);
    case KD_MAP: return new MapM(ty % MT_N);
    case KD_STR: return new StrM();
    case KD_OPT: return new OptM(ty % OT_N);
    case KD_VAR: return new VarM(ty % WT_N);
    case KD_UPTR: return new UptrM(ty % UT_N);
    case KD_TUP: return new TupM(ty % TT_N);
    case KD_ALG: return new AlgM(ty % AT_N, ty % 7);
    case KD_NUM: return new NumM();
  }
  return nullptr;
}
static Op gen_kind_op(Rng &r, int kind) {
  switch (kind) {
    case KD_SEQ: return gen_seq_op(r);
    case KD_MAP: return gen_map_op(r, 24);
    case KD_STR: return gen_str_op(r);
    case KD_OPT: return gen_opt_op(r);
    case KD_VAR: return gen_var_op(r, -1);
    case KD_TUP: return gen_tup_op(r);
    case KD_ALG: return gen_alg_op(r);
    case KD_NUM: return gen_num_op(r);
  }
  return gen_uptr_op(r);
}
static std::string show_kind_op(int kind, int ty, const Op &o) {
  switch (kind) {
    case KD_SEQ: return show_seq_op(ty % VT_N, o);
    case KD_MAP: return show_map_op(ty % MT_N, o);
    case KD_STR: return show_str_op(o);
    case KD_OPT: return show_opt_op(ty % OT_N, o);
    case KD_VAR: return show_var(Plan(), o);
    case KD_TUP: return show_tup_op(ty % TT_N, o);
    case KD_ALG: return show_alg_op(ty % AT_N, o);
    case KD_NUM: return NumM::what_of(o);
  }
  return show_uptr_op(ty % UT_N, o);
}
// cfg: 1 threads, 2.. (kind, type) per thread; thread 0 fills the shared objects
static void gen_conc(Rng &r, Plan &p) {
  static const int kinds[] = {KD_SEQ, KD_SEQ, KD_MAP, KD_MAP, KD_STR, KD_STR, KD_OPT, KD_VAR, KD_UPTR, KD_TUP, KD_ALG, KD_NUM};
  int n = 2 + (int)r.below(3);
  bool same = r.chance(3, 5);  // threads often use objects of one type
  int kind = r.pick(kinds), ty = r.below(2) ? 0 : (int)r.below(60);
  p.cfg = {(i64)r.next() & 0xffff, n};
  for (int t = 0; t <= n; t++) {
    p.cfg.push_back(same ? kind : r.pick(kinds));
    p.cfg.push_back(same && r.below(2) ? ty : (i64)r.below(60));
  }
  int k = 2 + (int)r.below(8);
  for (int t = 0; t <= n; t++)
    for (int i = 0; i < k; i++) {
      int kind = (int)p.cfg[2 + 2 * t];
      bool shared = t && r.below(2);
      Op o = gen_kind_op(r, shared ? (int)p.cfg[2] : kind);
      o.thr = t | (shared ? 64 : 0);
      p.ops.push_back(o);
    }
}
struct Conc {
  const Plan *p;
  Machine *shared;
};
struct ConcCl {
  Conc *c;
  int t;
};
static void conc_client(void *v) {
  ConcCl *c = (ConcCl *)v;
  const Plan &p = *c->c->p;
  Machine *m = new_machine((int)p.cfg[2 + 2 * c->t], (int)p.cfg[3 + 2 * c->t]);
  for (const Op &o : p.ops) {
    if ((o.thr & 63) != c->t) continue;
    if (o.thr & 64) c->c->shared->look(o);
    else m->step(o);
  }
  m->finish();
  delete m;
}
static void run_conc(const Plan &p) {
  reset_registry();
  several = true;
  int n = (int)p.cfg[1];
  Conc c = {&p, new_machine((int)p.cfg[2], (int)p.cfg[3])};
  for (const Op &o : p.ops)
    if (!(o.thr & 127)) c.shared->step(o);
  ConcCl cl[8];
  int ids[8];
  for (int t = 1; t <= n; t++) {
    cl[t] = {&c, t};
    ids[t] = spawn(conc_client, &cl[t], fmt("client%d", t).c_str());
  }
  for (int t = 1; t <= n; t++) join(ids[t]);
  c.shared->finish();  // one thread's object is handed on to another
  delete c.shared;
  note_trivial(p.ops.empty());
  check_all_gone();
}
static Register r_conc({"conc_objects", "P16", "threads using their own objects and reading shared ones, with failing allocations and elements",
                        bit(K_ALLOC) | bit(K_ELEM) | bit(K_REENTER), 400000, gen_conc, run_conc,
                        [](const Plan &p, const Op &o) {
                          int t = o.thr & 63, k = (int)p.cfg[o.thr & 64 ? 2 : 2 + 2 * t], ty = (int)p.cfg[o.thr & 64 ? 3 : 3 + 2 * t];
                          std::string s = show_kind_op(k, ty, o);
                          return (o.thr & 64 ? "reads shared: " : "") + s;
                        }});
