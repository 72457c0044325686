// Internal interface between the simulator kernel and its stubs.
#pragma once
#include "sim.h"
#include <setjmp.h>

namespace sim {
enum { MAXF = 16 };
static const size_t STACK_SZ = 512 * 1024;
static char *const STACK_BASE = (char *)0x200000000000ull;
static char *const HEAP_BASE = (char *)0x210000000000ull;
static const size_t HEAP_SZ = 48u << 20;

enum FState : u8 { F_NONE, F_READY, F_BLOCKED, F_STALLED, F_DONE };
enum PType : u8 { P_MEM, P_ATOMIC, P_SYNC };

struct VC {
  u32 c[MAXF];
};

struct Pend {
  u64 addr, old, step;
  u32 n;
  VC sync;
};

struct Fiber {
  int id;
  FState st;
  void *sp;
  char *lo, *hi;
  void (*cfn)(void *);
  void *(*pfn)(void *);
  void *parg;
  u32 lstep;
  i64 deadline;      // monotonic ns; <0: none
  bool dl_wall;      // deadline is in wall-clock ns
  bool timed_out;
  i64 stall_until;
  const void *wobj;
  const char *wwhy;
  VC vc, acq, rel;
  bool has_rel;
  int sv_errno;
  char cxa[16];
  bool armed;
  u32 cidx[K_NKINDS];
  u32 scur;          // replay cursor in sched list
  u64 minsp;
  i64 prio;
  char name[24];
  // pthread view
  bool is_pthread, detached, joined;
  int slot;
  void *retval;
  u64 stack_size;
  bool wake_signal;  // woken by signal (not timeout)
  char *tlsimg;
  Pend pend[8];  // store buffer
  u32 np;
};

struct World {
  bool active = false;
  bool replay = false;
  bool trace = false;
  const Scenario *scn = nullptr;
  Fiber f[MAXF];
  int nf = 0;
  Fiber *cur = nullptr;
  void *runner_sp = nullptr;
  i64 now = 0, wall_off = 0;
  i64 tick = 1;  // clocks are read when they have just ticked
  i64 next_deadline = -1;
  u64 steps = 0, hash = 0, ihash = 0, seqno = 0;
  u32 switches = 0;
  bool heal = false;
  u32 quantum = 0;
  u64 max_steps = 0, hard_cap = 0;
  u32 consec = 0;
  // strategy
  int strat = 0;
  u64 next_ev = 0, next_stall = 0, next_clk = 0;
  u64 mean = 0, stall_mean = 0, clk_mean = 0;
  u64 pct_k = 0;
  std::vector<u64> pct_points;
  size_t pct_i = 0;
  i64 pct_low = 0;
  bool dirty = false;
  u32 sync_den = 2;
  Rng rs, rc;
  u32 rate[K_NKINDS];
  u32 npend = 0;
  bool had_stall = false, had_clk = false;
  i64 stall_total = 0;  // injected late wake-ups
  std::vector<std::pair<i64, i64>> stalls;
  bool violated = false;
  RunResult *out = nullptr;
  const RunInput *in = nullptr;
  std::vector<SchedEnt> per_fiber[MAXF];
  u32 gen = 0;
  u8 fill = 0xA5;
  std::string logbuf;
  bool trivial = false;
};
extern World W;

void point(PType t, const void *addr = nullptr);
// block the current fiber on obj; deadline <0 = none. Returns true on timeout.
bool block(const void *obj, const char *why, i64 deadline, bool wall);
void wake(Fiber *f);
void forced_yield();
Fiber *new_fiber(const char *name);
void start_fiber(Fiber *f);
void fiber_exit_current() __attribute__((noreturn));

// race detector / memory checks
void mem_access(const void *a, size_t n, bool write, bool atomic, void *pc);
void asan_clear(u64 lo, u64 hi);
void check_addr(const void *a, size_t n, bool write, void *pc);
// Stores that are not sequentially consistent wait in their thread's store
// buffer (x86-TSO): memory has the new value at once, but until the buffer is
// drained another thread's plain atomic load may still be given the old one.
void stores_drain(Fiber *f, const void *addr, size_t n);  // addr: only if f has a store there
void vc_join(VC &a, const VC &b);
void hb_acquire(const VC &v);
void hb_release(VC &v);   // v |= cur; tick
void hb_tick();
VC *sync_clock(const void *addr);  // find or create
VC *sync_find(const void *addr);
void race_clear(const void *a, size_t n);

// heap
void heap_reset();
enum AKind : u8 { A_NEW, A_NEWARR, A_MALLOC, A_HARNESS };
void *heap_get(size_t n, size_t align, AKind k);
void heap_put(void *p, AKind k, void *pc);
bool in_heap(const void *p);
size_t heap_size_of(const void *p);

void posix_reset();
void posix_thread_finish(Fiber *f);
bool posix_reaped(Fiber *f);  // ended and nothing refers to it any more
void posix_new_fiber(Fiber *f);
int stub_id(const char *name);
#define STUB(name)                                        \
  do {                                                    \
    if (sim::W.active) {                                  \
      static int sid_ = sim::stub_id(name);               \
      sim::stub_hits[sid_]++;                             \
    }                                                     \
  } while (0)

extern "C" void sim_switch(void **save, void *to);
}  // namespace sim
