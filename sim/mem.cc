// Simulated heap, address checks, happens-before race detection, and the
// runtime for the compiler's -fsanitize=thread instrumentation.
#include "kernel.h"

#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>

#include <new>

namespace sim {

// ------------------------------------------------------------------ sim heap
struct Block {
  char *p;
  size_t n;
  AKind kind;
  bool live;
  u8 fiber;
};
static std::vector<Block> blocks;
static u8 *hshadow = nullptr;  // one byte per 8-byte granule; 0 = not addressable
static size_t hused = 0;       // bytes used
static u64 sut_bytes = 0;      // asked for by the code under test in the whole run
static const u8 FREED = 0xFD;
static size_t recycle = 0;     // where to look for the next block to use again
static void race_forget(void *p, size_t n);

static void heap_map() {
  if (hshadow) return;
  void *p = mmap(HEAP_BASE, HEAP_SZ, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
  if (p != HEAP_BASE) harness_error("cannot map simulated heap");
  hshadow = (u8 *)mmap(nullptr, HEAP_SZ / 8 + 4096, PROT_READ | PROT_WRITE,
                       MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}
void heap_reset() {
  heap_map();
  memset(hshadow, 0, hused / 8 + 16);
  hused = 0;
  sut_bytes = 0;
  recycle = 0;
  blocks.clear();
}
bool in_heap(const void *p) { return (char *)p >= HEAP_BASE && (char *)p < HEAP_BASE + HEAP_SZ; }

static Block *find_block(const void *p) {
  size_t lo = 0, hi = blocks.size();
  while (lo < hi) {
    size_t m = (lo + hi) / 2;
    if (blocks[m].p <= (const char *)p)
      lo = m + 1;
    else
      hi = m;
  }
  return lo ? &blocks[lo - 1] : nullptr;
}

static void *heap_reuse(size_t n, size_t align, AKind k) {
  size_t live = 0;
  for (size_t i = 0; n >= 512 && i < blocks.size(); i++) {
    if (recycle >= blocks.size()) recycle = 0;
    Block &b = blocks[recycle++];
    if (b.live || (b.n + 7) / 8 != (n + 7) / 8 || (u64)b.p % align) continue;
    size_t g = (b.p - HEAP_BASE) / 8, full = n / 8;
    race_forget(b.p, n);
    memset(b.p, W.fill, n);
    memset(hshadow + g, 8, full);
    if (n & 7) hshadow[g + full] = n & 7;
    b = {b.p, n, k, true, (u8)(W.cur ? W.cur->id : 0)};
    return b.p;
  }
  for (auto &b : blocks)
    if (b.live) live += b.n;
  if (live > HEAP_SZ / 2) violation("out-of-memory", "%zu bytes are allocated at once", live);
  abandon("simulated heap used up");
}
void *heap_get(size_t n, size_t align, AKind k) {
  if (align < 16) align = 16;
  if (k != A_HARNESS) sut_bytes += n;
  size_t off = hused + 32;
  off = (off + align - 1) & ~(align - 1);
  if (n > HEAP_SZ / 4) return nullptr;
  // Addresses are used once, so that a use after release is always noticed. A
  // run that needs more addresses than there are uses released blocks of the
  // same size again, oldest first.
  if (off + n + 64 > HEAP_SZ) return heap_reuse(n, align, k);
  char *p = HEAP_BASE + off;
  hused = (off + n + 15) & ~15ull;
  memset(p, W.fill, n);
  size_t g = off / 8, full = n / 8;
  memset(hshadow + g, 8, full);
  if (n & 7) hshadow[g + full] = n & 7;
  blocks.push_back({p, n, k, true, (u8)(W.cur ? W.cur->id : 0)});
  return p;
}

static const char *const akname[] = {"new", "new[]", "malloc", "harness"};

void heap_put(void *p, AKind k, void *pc) {
  if (!p) return;
  if (!in_heap(p)) violation("bad-free", "release of %p, which was not allocated (%s)", p, akname[k]);
  Block *b = find_block(p);
  if (!b || b->p != (char *)p)
    violation("bad-free", "release of an address that is not the start of a block (%s)", akname[k]);
  if (!b->live) violation("double-free", "block of %zu bytes released twice", b->n);
  if (b->kind != k)
    violation("alloc-mismatch", "block of %zu bytes from %s released with %s", b->n, akname[b->kind],
              k == A_NEW ? "delete" : k == A_NEWARR ? "delete[]" : "free");
  b->live = false;
  // a release is a write to the whole block as far as races are concerned
  if (k != A_HARNESS && b->n) mem_access(p, b->n, true, false, pc);
  memset(p, 0xDD, b->n);
  size_t g = (b->p - HEAP_BASE) / 8;
  memset(hshadow + g, FREED, (b->n + 7) / 8);
}
size_t heap_size_of(const void *p) {
  Block *b = find_block(p);
  return b && b->p == p ? b->n : 0;
}
void *heap_alloc(size_t n, size_t align) {
  void *p = heap_get(n, align, A_HARNESS);
  if (!p) harness_error("simulated heap exhausted");
  return p;
}
void heap_free(void *p) { heap_put(p, A_HARNESS, nullptr); }
u64 heap_live_blocks() {
  u64 c = 0;
  for (auto &b : blocks)
    if (b.live && b.kind != A_HARNESS) c++;
  return c;
}
u64 heap_sut_bytes() { return sut_bytes; }
u64 heap_live_all() {
  u64 c = 0;
  for (auto &b : blocks) c += b.live;
  return c;
}
void heap_check_leaks(const char *cls) {
  u64 c = 0, bytes = 0;
  for (auto &b : blocks)
    if (b.live && b.kind != A_HARNESS) c++, bytes += b.n;
  if (c)
    violation(cls, "%llu block(s), %llu bytes, never released", (unsigned long long)c,
              (unsigned long long)bytes);
}
bool heap_is_live(const void *p, size_t n) {
  if (!in_heap(p)) return false;
  Block *b = find_block(p);
  return b && b->live && (char *)p + n <= b->p + b->n;
}

// ----------------------------------------------- arrays on the stack and statics
// Builds with address instrumentation tell, through the shadow their code writes, which
// bytes of a stack frame or of a static object may be touched.
static const u64 ASAN_OFF = 0x7fff8000ull, ASAN_LOW = 0x40000000ull;
bool asan_on = false;
static inline signed char *asan_sh(u64 x) { return (signed char *)((x >> 3) + ASAN_OFF); }
static void asan_map(u64 lo, u64 hi) {
  u64 a = (u64)asan_sh(lo) & ~4095ull, b = ((u64)asan_sh(hi) + 4095) & ~4095ull;
  void *p = mmap((void *)a, b - a, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void *)a) harness_error("cannot map the shadow of %llx", (unsigned long long)lo);
}
static void asan_start() {
  if (asan_on) return;
  asan_on = true;
  asan_map(0, ASAN_LOW);
  asan_map((u64)STACK_BASE, (u64)STACK_BASE + (STACK_SZ + 65536) * MAXF);
  u64 sp = (u64)__builtin_frame_address(0);
  asan_map(sp - (16u << 20), sp + (4u << 20));  // constructors of static objects run here
}
void asan_clear(u64 lo, u64 hi) {
  if (asan_on && lo < hi) memset(asan_sh(lo & ~7ull), 0, (hi - (lo & ~7ull)) / 8);
}
static void asan_noreturn() {
  if (!asan_on || !W.active || !W.cur) return;
  u64 sp = (u64)__builtin_frame_address(0);
  if (sp >= (u64)W.cur->lo && sp < (u64)W.cur->hi) asan_clear(sp, (u64)W.cur->hi);
}
static void asan_check(u64 x, size_t n, bool write, void *pc) {
  for (u64 g = x & ~7ull; g < x + n; g += 8) {
    int k = *asan_sh(g);
    if (__builtin_expect(k == 0, 1)) continue;
    u64 last = x + n - 1 < g + 7 ? x + n - 1 - g : 7;
    if (k > 0 && (int)last < k) continue;
    // a frame that was left without cleaning up cannot be judged
    if (x - (u64)STACK_BASE < (STACK_SZ + 65536) * MAXF && x < (u64)__builtin_frame_address(0)) continue;
    u8 c = (u8)(k > 0 ? *asan_sh(g + 8) : k);
    violation(c == 0xf8 ? "use-after-scope" : x < ASAN_LOW ? "static-out-of-bounds" : "stack-out-of-bounds",
              "%s of %zu bytes %s (pc %p)", write ? "write" : "read", n,
              c == 0xf8 ? "in a local variable whose scope has ended"
              : x < ASAN_LOW ? "outside a static object" : "outside a local variable", pc);
  }
}

void check_addr(const void *a, size_t n, bool write, void *pc) {
  u64 x = (u64)a;
  if (__builtin_expect(asan_on, 0) && n && (x < ASAN_LOW - 4096 || x - (u64)STACK_BASE < (STACK_SZ + 65536) * MAXF))
    asan_check(x, n, write, pc);
  if (__builtin_expect(x < 4096, 0))
    violation("null-deref", "%s of %zu bytes at address 0x%llx (pc %p)", write ? "write" : "read", n,
              (unsigned long long)x, pc);
  if (x - (u64)HEAP_BASE < HEAP_SZ && n) {
    size_t off = x - (u64)HEAP_BASE;
    size_t end = off + n;
    if (end > HEAP_SZ) end = HEAP_SZ;
    for (size_t g = off / 8; g <= (end - 1) / 8; g++) {
      u8 s = hshadow[g];
      if (__builtin_expect(s == 8, 1)) continue;
      size_t lastbyte = (end - 1) / 8 == g ? (end - 1) % 8 : 7;
      if (s < 8 && lastbyte < s) continue;
      Block *b = find_block((char *)HEAP_BASE + g * 8 + (s && s < 8 ? s : 0));
      if (s == FREED)
        violation("use-after-free", "%s of %zu bytes in a released block of %zu bytes (pc %p)",
                  write ? "write" : "read", n, b ? b->n : 0, pc);
      violation("heap-out-of-bounds", "%s of %zu bytes at offset %lld of a block of %zu bytes (pc %p)",
                write ? "write" : "read", n, b ? (long long)((char *)a - b->p) : -1, b ? b->n : 0, pc);
    }
  }
}

// -------------------------------------------------------------- race detector
struct Cell {
  u32 clk;
  u8 fid, mask, write, atomic;
};
struct Gran {
  u32 gen;
  u32 pad;
  Cell c[4];
};
static Gran *gheap = nullptr, *gstack = nullptr, *gdata = nullptr;
extern "C" {
extern char sim_sut_data_begin[], sim_sut_data_end[], sim_sut_bss_begin[], sim_sut_bss_end[];
}
static const size_t STACK_TOTAL = (STACK_SZ + 65536) * MAXF;
static void race_forget(void *p, size_t n) {
  if (gheap) memset((void *)&gheap[((char *)p - HEAP_BASE) / 8], 0, (n + 7) / 8 * sizeof(Gran));
}

static void race_map() {
  if (gheap) return;
  auto m = [](size_t bytes) {
    return (Gran *)mmap(nullptr, bytes / 8 * sizeof(Gran) + 4096, PROT_READ | PROT_WRITE,
                        MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  };
  gheap = m(HEAP_SZ);
  gstack = m(STACK_TOTAL);
  gdata = m(sim_sut_bss_end - sim_sut_data_begin + 64);
}
static inline Gran *gran(u64 x) {
  if (x - (u64)STACK_BASE < STACK_TOTAL) return &gstack[(x - (u64)STACK_BASE) / 8];
  if (x - (u64)HEAP_BASE < HEAP_SZ) return &gheap[(x - (u64)HEAP_BASE) / 8];
  if (x >= (u64)sim_sut_data_begin && x < (u64)sim_sut_bss_end)
    return &gdata[x / 8 - (u64)sim_sut_data_begin / 8];
  return nullptr;
}

static void race_report(Fiber *f, const Cell &o, const void *a, size_t n, bool write, bool atomic,
                        void *pc) {
  violation("data-race", "T%d(%s) %s%s of %zu bytes races with an earlier %s%s by T%d(%s) (pc %p)%s", f->id,
            f->name, atomic ? "atomic " : "", write ? "write" : "read", n, o.atomic ? "atomic " : "",
            o.write ? "write" : "read", o.fid, W.f[o.fid].name, pc,
            in_heap(a) ? " on the heap" : gran((u64)a) && (char *)a >= sim_sut_data_begin &&
                                                  (char *)a < sim_sut_bss_end
                                              ? " in a static variable"
                                              : "");
}

void mem_access(const void *a, size_t n, bool write, bool atomic, void *pc) {
  if (W.nf < 2) {
    // still record: main-thread writes before spawning are ordered by the spawn
    return;
  }
  race_map();
  Fiber *f = W.cur;
  u64 x = (u64)a, e = x + n;
  if (n > 4096) e = x + 4096;
  u32 me = f->vc.c[f->id];
  while (x < e) {
    u64 g0 = x & ~7ull;
    u64 ge = g0 + 8;
    u64 last = e < ge ? e : ge;
    u8 mask = (u8)((0xFFu >> (8 - (last - x))) << (x - g0));
    Gran *g = gran(g0);
    if (!g) {
      x = ge;
      continue;
    }
    if (g->gen != W.gen) {
      memset((void *)g, 0, sizeof *g);
      g->gen = W.gen;
    }
    int slot = -1;
    for (int i = 0; i < 4; i++) {
      Cell &c = g->c[i];
      if (!c.mask) {
        if (slot < 0) slot = i;
        continue;
      }
      if (c.fid == f->id) {
        if (c.mask == mask && c.write == write && c.atomic == atomic) slot = i;
        continue;
      }
      if ((c.mask & mask) && (c.write | write) && !(c.atomic && atomic) && c.clk > f->vc.c[c.fid])
        race_report(f, c, a, n, write, atomic, pc);
      if (slot < 0 && c.clk <= f->vc.c[c.fid] && (c.mask & ~mask) == 0 && (write || !c.write)) slot = i;
    }
    if (slot < 0) {
      // prefer to evict an entry ordered before us, then a read
      for (int i = 0; i < 4 && slot < 0; i++)
        if (g->c[i].fid == f->id && !g->c[i].write) slot = i;
      for (int i = 0; i < 4 && slot < 0; i++)
        if (g->c[i].clk <= f->vc.c[g->c[i].fid]) slot = i;
      if (slot < 0) slot = (int)(me & 3);
    }
    g->c[slot] = {me, (u8)f->id, mask, (u8)write, (u8)atomic};
    x = ge;
  }
}
void race_clear(const void *a, size_t n) {
  race_map();
  for (u64 x = (u64)a & ~7ull; x < (u64)a + n; x += 8) {
    Gran *g = gran(x);
    if (g) g->gen = 0;
  }
}

void vc_join(VC &a, const VC &b) {
  for (int i = 0; i < MAXF; i++)
    if (b.c[i] > a.c[i]) a.c[i] = b.c[i];
}
void hb_tick() { W.cur->vc.c[W.cur->id]++; }
void hb_acquire(const VC &v) { vc_join(W.cur->vc, v); }
void hb_release(VC &v) {
  vc_join(v, W.cur->vc);
  hb_tick();
}

struct SyncEnt {
  u64 addr;
  u32 gen;
  VC vc;
};
static SyncEnt *stab = nullptr;
static const u32 SN = 1 << 14;
static SyncEnt *sync_slot(u64 a, bool create) {
  if (!stab) {
    stab = (SyncEnt *)mmap(nullptr, SN * sizeof(SyncEnt), PROT_READ | PROT_WRITE,
                           MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  }
  u32 h = (u32)((a * 0x9E3779B97F4A7C15ull) >> 50);
  for (u32 i = 0; i < SN; i++) {
    SyncEnt &e = stab[(h + i) & (SN - 1)];
    if (e.gen != W.gen) {
      if (!create) return nullptr;
      e.gen = W.gen;
      e.addr = a;
      memset(&e.vc, 0, sizeof e.vc);
      return &e;
    }
    if (e.addr == a) return &e;
  }
  harness_error("sync table full");
}
VC *sync_clock(const void *a) { return &sync_slot((u64)a, true)->vc; }
VC *sync_find(const void *a) {
  SyncEnt *e = sync_slot((u64)a, false);
  return e ? &e->vc : nullptr;
}

static inline void access(void *a, size_t n, bool w, void *pc) {
  if (__builtin_expect(!W.active, 0)) return;
  // own-stack accesses that stay in this frame region are still points: cheap
  point(P_MEM, a);
  check_addr(a, n, w, pc);
  mem_access(a, n, w, false, pc);
}

enum { MO_RELAXED, MO_CONSUME, MO_ACQUIRE, MO_RELEASE, MO_ACQ_REL, MO_SEQ };
static inline bool is_acq(int m) { m &= 0xff; return m == MO_CONSUME || m == MO_ACQUIRE || m == MO_ACQ_REL || m == MO_SEQ; }
static inline bool is_rel(int m) { m &= 0xff; return m == MO_RELEASE || m == MO_ACQ_REL || m == MO_SEQ; }

void atomic_pre(const void *a, size_t n, bool w, void *pc) {
  point(P_ATOMIC, a);
  check_addr(a, n, w, pc);
  mem_access(a, n, w, true, pc);
}
void atomic_load_hb(const void *a, int mo) {
  VC *v = sync_find(a);
  if (v) {
    if (is_acq(mo))
      hb_acquire(*v);
    else
      vc_join(W.cur->acq, *v);
  }
}
void atomic_store_hb(const void *a, int mo, bool rmw) {
  VC *v = sync_clock(a);
  if (!rmw) memset(v, 0, sizeof *v);
  if (is_rel(mo))
    hb_release(*v);
  else if (W.cur->has_rel)
    vc_join(*v, W.cur->rel);
}
void stores_drain(Fiber *f, const void *addr, size_t n) {
  if (!f->np) return;
  if (n) {
    bool there = false;
    for (Pend *q = f->pend; q < f->pend + f->np; q++) there |= q->addr < (u64)addr + n && (u64)addr < q->addr + q->n;
    if (!there) return;
  }
  W.npend -= f->np;
  f->np = 0;
}
static void stores_drain_all(const void *addr, size_t n) {
  for (int i = 0; i < W.nf; i++) stores_drain(&W.f[i], addr, n);
}
// a read-modify-write acts on the newest value, after everything its thread stored
static inline void tso_rmw(const void *a, size_t n) {
  if (__builtin_expect(!W.npend, 1)) return;
  stores_drain(W.cur, nullptr, 0);
  stores_drain_all(a, n);
}
static inline void tso_store(const void *a, size_t n, u64 old, int mo) {
  if (W.npend) {
    for (int i = 0; i < W.nf; i++)
      if (&W.f[i] != W.cur) stores_drain(&W.f[i], a, n);
    if ((mo & 0xff) == MO_SEQ) stores_drain(W.cur, nullptr, 0);
  }
  if ((mo & 0xff) == MO_SEQ || !(W.scn->faults & bit(K_STALE)) || W.heal || W.nf < 2) return;
  if (W.cur->np >= 8) stores_drain(W.cur, nullptr, 0);
  Pend &p = W.cur->pend[W.cur->np++];
  p.addr = (u64)a;
  p.old = old;
  p.step = W.steps;
  p.n = (u32)n;
  if (VC *v = sync_find(a)) p.sync = *v;
  else memset(&p.sync, 0, sizeof p.sync);
  W.npend++;
}
// true: the load is given *old instead
static bool tso_load(const void *a, size_t n, int mo, u64 *old) {
  for (int i = 0; i < W.nf; i++) {
    Fiber *f = &W.f[i];
    if (f == W.cur || !f->np) continue;
    for (u32 k = 0; k < f->np; k++) {
      Pend &p = f->pend[k];
      if (!(p.addr < (u64)a + n && (u64)a < p.addr + p.n)) continue;
      if (p.addr != (u64)a || p.n != n || W.heal || W.steps - p.step > 300 || f->st == F_DONE || f->st == F_BLOCKED || !choose(K_STALE, 1)) {
        stores_drain(f, nullptr, 0);
        break;
      }
      if (is_acq(mo)) hb_acquire(p.sync);
      else vc_join(W.cur->acq, p.sync);
      *old = p.old;
      return true;
    }
  }
  return false;
}
void atomic_fence(int mo) {
  point(P_ATOMIC, nullptr);
  if (W.npend && (mo & 0xff) == MO_SEQ) stores_drain(W.cur, nullptr, 0);
  if (is_acq(mo)) hb_acquire(W.cur->acq);
  if (is_rel(mo)) {
    W.cur->rel = W.cur->vc;
    W.cur->has_rel = true;
    hb_tick();
  }
}
}  // namespace sim

using namespace sim;
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n)                                                                \
  void __tsan_read##n(void *a) { access(a, n, false, PC); }                  \
  void __tsan_write##n(void *a) { access(a, n, true, PC); }                  \
  void __tsan_unaligned_read##n(void *a) { access(a, n, false, PC); }        \
  void __tsan_unaligned_write##n(void *a) { access(a, n, true, PC); }        \
  void __tsan_volatile_read##n(void *a) { access(a, n, false, PC); }         \
  void __tsan_volatile_write##n(void *a) { access(a, n, true, PC); }         \
  void __tsan_read_write##n(void *a) { access(a, n, true, PC); }             \
  void __tsan_unaligned_read_write##n(void *a) { access(a, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, unsigned long n) { if (n) access(a, n, false, PC); }
void __tsan_write_range(void *a, unsigned long n) { if (n) access(a, n, true, PC); }
void __tsan_vptr_update(void **a, void *) { access(a, 8, true, PC); }
void __tsan_vptr_read(void **a) { access(a, 8, false, PC); }

#define AT(bits, T)                                                                          \
  T __tsan_atomic##bits##_load(const volatile T *a, int mo) {                                \
    if (!W.active) return *a;                                                                \
    atomic_pre((const void *)a, sizeof(T), false, PC);                                       \
    u64 old;                                                                                 \
    if (__builtin_expect(W.npend, 0) && tso_load((const void *)a, sizeof(T), mo, &old)) return (T)old; \
    atomic_load_hb((const void *)a, mo);                                                     \
    return *a;                                                                               \
  }                                                                                          \
  void __tsan_atomic##bits##_store(volatile T *a, T v, int mo) {                             \
    if (!W.active) { *a = v; return; }                                                       \
    atomic_pre((const void *)a, sizeof(T), true, PC);                                        \
    tso_store((const void *)a, sizeof(T), (u64)*a, mo);                                      \
    atomic_store_hb((const void *)a, mo, false);                                             \
    *a = v;                                                                                  \
  }                                                                                          \
  T __tsan_atomic##bits##_exchange(volatile T *a, T v, int mo) {                             \
    if (!W.active) { T o = *a; *a = v; return o; }                                           \
    atomic_pre((const void *)a, sizeof(T), true, PC);                                        \
    tso_rmw((const void *)a, sizeof(T));                                                     \
    atomic_load_hb((const void *)a, mo);                                                     \
    atomic_store_hb((const void *)a, mo, true);                                              \
    T o = *a; *a = v; return o;                                                              \
  }                                                                                          \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int fmo) { \
    if (!W.active) { if (*a == *c) { *a = v; return 1; } *c = *a; return 0; }                \
    point(P_ATOMIC, (const void *)a);                                                        \
    check_addr((const void *)a, sizeof(T), true, PC);                                        \
    tso_rmw((const void *)a, sizeof(T));                                                     \
    mem_access((const void *)a, sizeof(T), *a == *c, true, PC);                              \
    if (*a == *c) {                                                                          \
      atomic_load_hb((const void *)a, mo);                                                   \
      atomic_store_hb((const void *)a, mo, true);                                            \
      *a = v;                                                                                \
      return 1;                                                                              \
    }                                                                                        \
    atomic_load_hb((const void *)a, fmo);                                                    \
    *c = *a;                                                                                 \
    return 0;                                                                                \
  }                                                                                          \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int fmo) { \
    if (W.active && choose(K_MISC, 1)) { *c = *a; return 0; }                                \
    return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, mo, fmo);                  \
  }                                                                                          \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo) {   \
    __tsan_atomic##bits##_compare_exchange_strong(a, &c, v, mo, fmo);                        \
    return c;                                                                                \
  }
#define RMW(bits, T, nm, expr)                                                \
  T __tsan_atomic##bits##_fetch_##nm(volatile T *a, T v, int mo) {            \
    if (W.active) {                                                           \
      atomic_pre((const void *)a, sizeof(T), true, PC);                       \
      tso_rmw((const void *)a, sizeof(T));                                    \
      atomic_load_hb((const void *)a, mo);                                    \
      atomic_store_hb((const void *)a, mo, true);                             \
    }                                                                         \
    T o = *a;                                                                 \
    *a = (T)(expr);                                                           \
    return o;                                                                 \
  }
#define ALLAT(bits, T)                                                        \
  AT(bits, T)                                                                 \
  RMW(bits, T, add, o + v) RMW(bits, T, sub, o - v) RMW(bits, T, and, o &v)   \
  RMW(bits, T, or, o | v) RMW(bits, T, xor, o ^ v) RMW(bits, T, nand, ~(o & v))
ALLAT(8, uint8_t) ALLAT(16, uint16_t) ALLAT(32, uint32_t) ALLAT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { if (W.active) atomic_fence(mo); }
void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------- libc memory functions
static inline void rd(const void *a, size_t n, void *pc) { if (n && W.active) access((void *)a, n, false, pc); }
static inline void wr(void *a, size_t n, void *pc) { if (n && W.active) access(a, n, true, pc); }
void *sim_memcpy(void *d, const void *s, size_t n) { rd(s, n, PC); wr(d, n, PC); return memmove(d, s, n); }
void *sim_memmove(void *d, const void *s, size_t n) { rd(s, n, PC); wr(d, n, PC); return memmove(d, s, n); }
void *sim_memset(void *d, int c, size_t n) { wr(d, n, PC); return memset(d, c, n); }
int sim_memcmp(const void *a, const void *b, size_t n) { rd(a, n, PC); rd(b, n, PC); return memcmp(a, b, n); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { rd(s, n, PC); wr(d, n, PC); return memmove(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { rd(s, n, PC); wr(d, n, PC); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { wr(d, n, PC); return memset(d, c, n); }
// address instrumentation
void __asan_init() { asan_start(); }
void __asan_version_mismatch_check_v8() {}
void __asan_handle_no_return() { asan_noreturn(); }
#define ASAN_RW(n)                                                                 \
  void __asan_load##n(void *a) { access(a, n, false, PC); }                        \
  void __asan_store##n(void *a) { access(a, n, true, PC); }                        \
  void __asan_report_load##n(void *a) { access(a, n, false, PC); }                 \
  void __asan_report_store##n(void *a) { access(a, n, true, PC); }
ASAN_RW(1) ASAN_RW(2) ASAN_RW(4) ASAN_RW(8) ASAN_RW(16)
void __asan_loadN(void *a, unsigned long n) { if (n) access(a, n, false, PC); }
void __asan_storeN(void *a, unsigned long n) { if (n) access(a, n, true, PC); }
void __asan_report_load_n(void *a, unsigned long n) { if (n) access(a, n, false, PC); }
void __asan_report_store_n(void *a, unsigned long n) { if (n) access(a, n, true, PC); }
void *__asan_memcpy(void *d, const void *s, size_t n) { rd(s, n, PC); wr(d, n, PC); return memmove(d, s, n); }
void *__asan_memmove(void *d, const void *s, size_t n) { rd(s, n, PC); wr(d, n, PC); return memmove(d, s, n); }
void *__asan_memset(void *d, int c, size_t n) { wr(d, n, PC); return memset(d, c, n); }
static void asan_poison(u64 a, u64 n, u8 v) {  // whole granules, the last one partly
  memset(asan_sh(a), v, n / 8);
  if (n & 7) *asan_sh(a + (n & ~7ull)) = (signed char)(v ? v : n & 7);
}
void __asan_poison_stack_memory(u64 a, u64 n) { asan_poison(a, (n + 7) & ~7ull, 0xf8); }
void __asan_unpoison_stack_memory(u64 a, u64 n) { asan_poison(a, n, 0); }
void __asan_alloca_poison(u64 a, u64 n) {
  u64 e = a + n;
  memset(asan_sh(a - 32), 0xca, 4);
  memset(asan_sh((e + 31) & ~31ull), 0xcb, 4);
  if (((e + 31) & ~31ull) != e) {
    memset(asan_sh((e + 7) & ~7ull), 0xcb, (((e + 31) & ~31ull) - ((e + 7) & ~7ull)) / 8);
    if (e & 7) *asan_sh(e) = (signed char)(e & 7);
  }
}
void __asan_allocas_unpoison(u64 top, u64 bottom) { if (top && top < bottom) asan_clear(top, bottom); }
#define ASAN_SHADOW(h) void __asan_set_shadow_##h(u64 p, u64 n) { memset((void *)p, 0x##h, n); }
ASAN_SHADOW(00) ASAN_SHADOW(01) ASAN_SHADOW(02) ASAN_SHADOW(03) ASAN_SHADOW(04) ASAN_SHADOW(05) ASAN_SHADOW(06) ASAN_SHADOW(07)
ASAN_SHADOW(f1) ASAN_SHADOW(f2) ASAN_SHADOW(f3) ASAN_SHADOW(f5) ASAN_SHADOW(f8)
struct AsanGlobal { u64 beg, size, size_rz; const char *name, *module; u64 dyn, loc, odr; };
void __asan_register_globals(AsanGlobal *g, u64 n) {
  asan_start();
  for (u64 i = 0; i < n; i++) {
    if (g[i].beg + g[i].size_rz >= ASAN_LOW) continue;
    u64 e = g[i].beg + g[i].size, r = (e + 7) & ~7ull;
    memset(asan_sh(r), 0xf9, (g[i].beg + g[i].size_rz - r) / 8);
    if (e & 7) *asan_sh(e) = (signed char)(e & 7);
  }
}
void __asan_unregister_globals(AsanGlobal *, u64) {}
void __asan_register_elf_globals(u64 *flag, AsanGlobal *b, AsanGlobal *e) {
  if (*flag || b == e) return;
  *flag = 1;
  __asan_register_globals(b, e - b);
}
void __asan_unregister_elf_globals(u64 *, AsanGlobal *, AsanGlobal *) {}
void __asan_before_dynamic_init(const char *) {}
void __asan_after_dynamic_init() {}
u32 __asan_option_detect_stack_use_after_return = 0;

static size_t slen(const char *s, size_t max, void *pc) {
  if (!W.active) return strnlen(s, max);
  size_t n = 0;
  for (; n < max; n++) {
    check_addr(s + n, 1, false, pc);
    if (!s[n]) break;
  }
  rd(s, n < max ? n + 1 : n, pc);
  return n;
}
size_t sim_strlen(const char *s) { return slen(s, ~0ul, PC); }
size_t sim_strnlen(const char *s, size_t m) { return slen(s, m, PC); }
int sim_strcmp(const char *a, const char *b) { slen(a, ~0ul, PC); slen(b, ~0ul, PC); return strcmp(a, b); }
int sim_strncmp(const char *a, const char *b, size_t n) { slen(a, n, PC); slen(b, n, PC); return strncmp(a, b, n); }
char *sim_strcpy(char *d, const char *s) { size_t n = slen(s, ~0ul, PC); wr(d, n + 1, PC); return (char *)memmove(d, s, n + 1); }
char *sim_strncpy(char *d, const char *s, size_t m) { slen(s, m, PC); wr(d, m, PC); return strncpy(d, s, m); }
void *sim_memchr(const void *s, int c, size_t n) { rd(s, n, PC); return (void *)memchr(s, c, n); }
char *sim_strchr(const char *s, int c) { slen(s, ~0ul, PC); return (char *)strchr(s, c); }
int sim_bcmp(const void *a, const void *b, size_t n) { rd(a, n, PC); rd(b, n, PC); return memcmp(a, b, n); }
char *sim_strrchr(const char *s, int c) { slen(s, ~0ul, PC); return (char *)strrchr(s, c); }
char *sim_strstr(const char *a, const char *b) { slen(a, ~0ul, PC); slen(b, ~0ul, PC); return (char *)strstr(a, b); }
char *sim_strcat(char *d, const char *s) { size_t n = slen(s, ~0ul, PC), m = slen(d, ~0ul, PC); wr(d + m, n + 1, PC); memmove(d + m, s, n + 1); return d; }
void *sim_mempcpy(void *d, const void *s, size_t n) { rd(s, n, PC); wr(d, n, PC); return (char *)memmove(d, s, n) + n; }
char *sim_stpcpy(char *d, const char *s) { size_t n = slen(s, ~0ul, PC); wr(d, n + 1, PC); return (char *)memmove(d, s, n + 1) + n; }
void *sim_memrchr(const void *s, int c, size_t n) { rd(s, n, PC); return (void *)memrchr(s, c, n); }

// ---------------------------------------------------------------- allocation
static bool fail_alloc() {
  return W.active && W.cur && W.cur->armed && choose(K_ALLOC, 1);
}
static void *do_alloc(size_t n, size_t al, AKind k, bool nothrow) {
  if (!W.active) return malloc(n ? n : 1);
  point(P_SYNC, nullptr);
  void *p = fail_alloc() ? nullptr : heap_get(n, al, k);
  if (!p && !nothrow) {
    asan_noreturn();
    throw std::bad_alloc();
  }
  return p;
}
static void do_free(void *p, AKind k, void *pc) {
  if (!p) return;
  if (!W.active) {
    if (!in_heap(p)) free(p);
    return;
  }
  point(P_SYNC, p);
  heap_put(p, k, pc);
}
void *sim_new(size_t n) { STUB("operator new"); return do_alloc(n, 16, A_NEW, false); }
void *sim_newarr(size_t n) { STUB("operator new[]"); return do_alloc(n, 16, A_NEWARR, false); }
void *sim_new_nt(size_t n, const void *) { STUB("operator new(nothrow)"); return do_alloc(n, 16, A_NEW, true); }
void *sim_newarr_nt(size_t n, const void *) { STUB("operator new[](nothrow)"); return do_alloc(n, 16, A_NEWARR, true); }
void *sim_new_al(size_t n, size_t al) { return do_alloc(n, al, A_NEW, false); }
void *sim_newarr_al(size_t n, size_t al) { return do_alloc(n, al, A_NEWARR, false); }
void sim_delete(void *p) { STUB("operator delete"); do_free(p, A_NEW, PC); }
void sim_deletearr(void *p) { STUB("operator delete[]"); do_free(p, A_NEWARR, PC); }
void *sim_malloc(size_t n) { STUB("malloc"); return do_alloc(n, 16, A_MALLOC, true); }
void *sim_calloc(size_t a, size_t b) {
  STUB("malloc");
  if (b && a > ~0ul / b) return nullptr;
  void *p = do_alloc(a * b, 16, A_MALLOC, true);
  if (p) memset(p, 0, a * b);
  return p;
}
void sim_free(void *p) { STUB("free"); do_free(p, A_MALLOC, PC); }
void *sim_realloc(void *p, size_t n) {
  STUB("malloc");
  if (!p) return do_alloc(n, 16, A_MALLOC, true);
  if (!W.active) return in_heap(p) ? nullptr : realloc(p, n);
  void *q = do_alloc(n, 16, A_MALLOC, true);
  if (!q) return nullptr;
  size_t o = heap_size_of(p);
  memcpy(q, p, o < n ? o : n);
  do_free(p, A_MALLOC, PC);
  return q;
}
int sim_posix_memalign(void **o, size_t al, size_t n) {
  void *p = do_alloc(n, al, A_MALLOC, true);
  if (!p) return 12;
  *o = p;
  return 0;
}
void *sim_aligned_alloc(size_t al, size_t n) { return do_alloc(n, al, A_MALLOC, true); }
char *sim_strndup(const char *s, size_t m) {
  STUB("malloc");
  size_t n = slen(s, m, PC);
  char *p = (char *)do_alloc(n + 1, 16, A_MALLOC, true);
  if (p) {
    memcpy(p, s, n);
    p[n] = 0;
  }
  return p;
}
char *sim_strdup(const char *s) { return sim_strndup(s, ~0ul); }
// the operators under their mangled names, so that one rule (X -> sim_X) redirects every call
void *sim__Znwm(size_t) __attribute__((alias("sim_new")));
void *sim__Znam(size_t) __attribute__((alias("sim_newarr")));
void *sim__ZnwmRKSt9nothrow_t(size_t, const void *) __attribute__((alias("sim_new_nt")));
void *sim__ZnamRKSt9nothrow_t(size_t, const void *) __attribute__((alias("sim_newarr_nt")));
void *sim__ZnwmSt11align_val_t(size_t, size_t) __attribute__((alias("sim_new_al")));
void *sim__ZnamSt11align_val_t(size_t, size_t) __attribute__((alias("sim_newarr_al")));
void sim__ZdlPv(void *) __attribute__((alias("sim_delete")));
void sim__ZdaPv(void *) __attribute__((alias("sim_deletearr")));
void sim__ZdlPvm(void *) __attribute__((alias("sim_delete")));
void sim__ZdaPvm(void *) __attribute__((alias("sim_deletearr")));
void sim__ZdlPvRKSt9nothrow_t(void *) __attribute__((alias("sim_delete")));
void sim__ZdaPvRKSt9nothrow_t(void *) __attribute__((alias("sim_deletearr")));
void sim__ZdlPvSt11align_val_tRKSt9nothrow_t(void *) __attribute__((alias("sim_delete")));
void *sim__ZnwmSt11align_val_tRKSt9nothrow_t(size_t n, size_t al, const void *) { return do_alloc(n, al, A_NEW, true); }
void sim__ZdlPvSt11align_val_t(void *) __attribute__((alias("sim_delete")));
void sim__ZdaPvSt11align_val_t(void *) __attribute__((alias("sim_deletearr")));
void sim__ZdlPvmSt11align_val_t(void *) __attribute__((alias("sim_delete")));
void sim__ZdaPvmSt11align_val_t(void *) __attribute__((alias("sim_deletearr")));
}
