// Output streams: histories of insertions and flushes under failing
// allocations and a failing standard output.
#include "sim.h"
#include "io.h"

#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#include <set>
#include <string>
#include <vector>

using namespace sim;
namespace sim { const std::string &io_text(); }

static std::string fmt(const char *f, ...) {
  char b[400];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  return b;
}
static std::string esc(const std::string &t) {
  std::string r = "\"";
  for (unsigned char c : t.substr(t.size() > 90 ? t.size() - 90 : 0)) r += c >= 32 && c < 127 && c != '"' ? std::string(1, (char)c) : fmt("\\x%02x", c);
  return r + "\"";
}
struct SimText {  // in checked memory
  char *p;
  explicit SimText(const std::string &t) : p((char *)heap_alloc(t.size() + 1)) { memcpy(p, t.data(), t.size() + 1); }
  ~SimText() { heap_free(p); }
};
static std::string text(i64 seed, i64 n) {
  static const char al[] = "ab%sdn\\\n\x7f\x80\xff 0\0" "19";
  std::string t;
  Rng r((u64)seed & 0xfff);
  for (i64 i = 0; i < n; i++) t += n > 70 && (seed & 1) ? al[r.below(8)] : al[r.below(sizeof al - 1)];
  return t;
}
static std::string number(bool single, i64 bits) {
  char *b = (char *)heap_alloc(64);
  drv_io_number(single, (long)bits, b);
  std::string t = b;
  heap_free(b);
  double d = 0;
  if (single) { float f; int w = (int)bits; memcpy((void *)&f, (void *)&w, 4); d = f; }
  else memcpy((void *)&d, (void *)&bits, 8);
  double r = single ? (double)strtof(t.c_str(), nullptr) : strtod(t.c_str(), nullptr);
  if (memcmp((void *)&r, (void *)&d, 8)) violation("io-number", "%.17g as text is %s", d, esc(t).c_str());
  return t;
}

struct Stream {
  void *o = nullptr;
  std::set<std::string> pend;  // what may still be unwritten; one element unless an output failed
};
static u32 io_faults() { return fired(K_ALLOC) + fired(K_IO); }

static void run_io(const Plan &p) {
  static const int NS = 2;
  Stream st[NS];
  int *self = (int *)heap_alloc(sizeof(int));
  size_t done = 0;
  auto make = [&](Stream &s) {
    s.o = heap_alloc(drv_io_sizeof(0));
    if (drv_io_op(IO_CTOR, s.o, nullptr, 0, nullptr, self)) violation("failed-without-cause", "construction failed");
    s.pend = {""};
  };
  for (auto &s : st) make(s);
  for (const Op &o : p.ops) {
    Stream &s = st[o.thr % NS];
    i64 v = o.b;
    std::string tx = text(o.a, o.c & 0xfffff), out0 = io_text();
    std::vector<std::string> parts;  // each is written whole or not at all
    done++;
    switch (o.code) {
      case IO_BOOL: parts = {v ? "1" : "0"}; break;
      case IO_SHORT: parts = {std::to_string((short)v)}; break;
      case IO_USHORT: parts = {std::to_string((unsigned short)v)}; break;
      case IO_INT: parts = {std::to_string((int)v)}; break;
      case IO_UINT: parts = {std::to_string((unsigned)v)}; break;
      case IO_LL: parts = {std::to_string((long long)v)}; break;
      case IO_ULL: parts = {std::to_string((unsigned long long)v)}; break;
      case IO_FLOAT: parts = {number(true, v)}; break;
      case IO_DOUBLE: parts = {number(false, v)}; break;
      case IO_CSTR: parts = {tx.c_str()}; break;  // ends at its first NUL
      case IO_STR: parts = {tx}; break;
      case IO_CHAIN: parts = {std::to_string((int)v), tx, tx.c_str(), std::to_string((unsigned)v)}; break;
      case IO_FLUSH: break;
      case IO_CTOR: {  // a stream is replaced by a new one; what it has not written is gone
        drv_io_destroy(0, s.o);
        heap_free(s.o);
        make(s);
        if (io_text().compare(0, out0.size(), out0)) violation("io-output", "output changed behind");
        continue;
      }
      default: continue;
    }
    SimText b(tx);
    void *str = nullptr;
    if (o.code == IO_STR || o.code == IO_CHAIN) {
      str = heap_alloc(drv_io_sizeof(1));
      if (drv_io_op(IO_STRCTOR, s.o, b.p, (long)tx.size(), str, self)) violation("failed-without-cause", "construction failed");
    }
    u32 f0 = io_faults(), w0 = fired(K_IO);
    *self = -1;
    set_faults_armed(true);
    int rc = drv_io_op(o.code, s.o, b.p, (long)v, str, self);
    set_faults_armed(false);
    bool iofail = fired(K_IO) > w0;
    if (rc && io_faults() == f0) violation("failed-without-cause", "operation %d on a stream failed though nothing failed underneath", o.code);
    if (rc && o.code == IO_FLUSH) violation("io-flush-failed", "flush threw an exception");
    if (!rc && *self != 1) violation("io-return", "operation %d does not return the stream", o.code);
    if (rc) log("failed");
    if (str) {
      drv_io_destroy(1, str);
      heap_free(str);
    }
    const std::string &out = io_text();
    if (out.size() < out0.size() || out.compare(0, out0.size(), out0)) violation("io-output", "output changed behind");
    std::string delta = out.substr(out0.size());
    std::set<std::string> next;
    for (const std::string &q : s.pend) {
      // texts that may have been appended
      std::string a = q;
      std::vector<std::string> pos;
      if (rc) {
        pos.push_back(a);
        for (size_t i = 0; i + 1 < parts.size(); i++) pos.push_back(a += parts[i]);
      } else {
        for (auto &t : parts) a += t;
        pos.push_back(a);
      }
      for (const std::string &t : pos) {
        if (t.compare(0, delta.size(), delta) && !delta.empty()) continue;  // out of order, or something else
        std::string rest = t.substr(delta.size());
        if (o.code == IO_FLUSH && !iofail && !rest.empty()) continue;  // incomplete
        next.insert(rest);
        if (iofail) next.insert("");
      }
    }
    if (next.empty()) {
      const std::string &q = *s.pend.begin();
      violation("io-output", "%s wrote %s; unwritten before it: %s%s", o.code == IO_FLUSH ? "flush" : "<<", esc(delta).c_str(), esc(q).c_str(),
                s.pend.size() > 1 ? " or other texts" : "");
    }
    if (rc) SIM_PROBE("io: << failed");
    if (iofail) SIM_PROBE("io: flush met a failing output");
    if (next.size() > 8) { SIM_PROBE("io: ambiguous"); break; }
    s.pend.swap(next);
    // a prefix of a chain that failed is decided by the next successful flush
  }
  for (auto &s : st) {
    drv_io_destroy(0, s.o);
    heap_free(s.o);
  }
  heap_free(self);
  note_trivial(done == 0);
  heap_check_leaks("leak");
}
static void gen_io(Rng &r, Plan &p) {
  p.cfg = {(i64)r.next() & 0xffff};
  int k = 3 + (int)r.below(r.below(4) ? 20 : 50);
  int big = r.below(3) ? 4 : 6;
  if (r.below(500) == 0) k = 200 + (int)r.below(1500);  // long histories
  bool huge = r.below(150) == 0;
  if (huge) k = 3 + (int)r.below(9);
  for (int i = 0; i < k; i++) {
    Op o;
    o.code = r.below(4) == 0 ? IO_FLUSH : r.below(40) == 0 ? IO_CTOR : IO_BOOL + (int)r.below(IO_CHAIN - IO_BOOL + 1);
    o.thr = (int)r.below(r.below(3) ? 1 : 2);
    o.a = (i64)r.below(4096);
    o.c = (i64)r.below(1 << r.below(big + 1));
    if (huge && r.below(3) == 0) {  // long texts
      static const i64 e[] = {100, 127, 128, 255, 256, 511, 512, 1000, 1023, 1024, 2048, 4095, 4096, 8191, 8192, 16384, 32768, 65535};
      o.c = r.pick(e) + r.range(-1, 2);
    }
    static const i64 edge[] = {0, 1, -1, 9, 10, 99, 100, 32767, -32768, 65535, 2147483647ll, -2147483648ll, 4294967295ll, 999999999ll, 9223372036854775807ll, (i64)(1ull << 63)};
    o.b = r.below(2) ? r.pick(edge) : (i64)(r.next() >> r.below(63));
    if (o.code == IO_FLOAT || o.code == IO_DOUBLE) {
      static const double de[] = {0, -0.0, 1, -1, 0.1, 0.5, 1.5, 1e10, 123456789, 1e22, 3.4028234663852886e38, 1.1754943508222875e-38, 4.9406564584124654e-324, 1.7976931348623157e308};
      double d = r.pick(de);
      if (r.below(2)) {
        u64 w = r.next();
        if (r.below(2)) w = (w & ~0x7ff0000000000000ull) | (u64)(1023 + r.range(-30, 60)) << 52;
        memcpy((void *)&d, (void *)&w, 8);
        if (!(d - d == 0)) d = 2;
      }
      float f = (float)d;
      if (!(f - f == 0)) f = 3;
      int w;
      memcpy((void *)&w, (void *)&f, 4);
      if (o.code == IO_FLOAT) o.b = w;
      else memcpy((void *)&o.b, (void *)&d, 8);
    }
    p.ops.push_back(o);
  }
}
static Register r_io({"stream_hist", "P18", "histories of insertions into and flushes of output streams under failing allocations and output",
                      bit(K_ALLOC) | bit(K_IO) | SF_NOPREEMPT, 4000000, gen_io, run_io,
                      [](const Plan &, const Op &o) {
                        static const char *const n[] = {"new stream", "", "<< bool", "<< short", "<< unsigned short", "<< int", "<< unsigned", "<< long long", "<< unsigned long long", "<< float", "<< double", "<< cstr", "<< string", "<< chain", "flush"};
                        return fmt("stream %d %s (%lld, text %lld/%lld)", o.thr % 2, n[o.code], (long long)o.b, (long long)o.a, (long long)o.c & 0xfffff);
                      }});
