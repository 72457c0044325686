#include "kernel.h"

#include <cxxabi.h>
#include <errno.h>
#include <link.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

#include <algorithm>
#include <exception>

namespace sim {
World W;
const char *const kind_name[K_NKINDS] = {
    "pick-next", "pick-waiter", "spurious-wakeup", "eintr", "late-wakeup", "alloc-fail",
    "thread-create-fail", "tls-create-fail", "sysconf-fail", "element-throw", "io-fail",
    "reenter", "setprio-refused", "coarse-clock-lag", "misc", "store-seen-late"};
const char *const skind_name[S_NKINDS] = {"preempt", "stall", "wallclock-step"};
const char *probe_names[MAXPROBES];
u64 probe_hits[MAXPROBES];
int probe_count = 0;
u64 stub_hits[256];
const char *stub_names[256];
static int n_stubs = 0;
int stub_count() { return n_stubs; }
int stub_id(const char *name) {
  for (int i = 0; i < n_stubs; i++)
    if (!strcmp(stub_names[i], name)) return i;
  stub_names[n_stubs] = name;
  return n_stubs++;
}

u64 mix(u64 a, u64 b) {
  Rng r(a * 0x9E3779B97F4A7C15ull + b);
  u64 x = r.next();
  return x ^ (r.next() << 1);
}
std::vector<Scenario> &scenarios() {
  static std::vector<Scenario> v;
  return v;
}
Register::Register(const Scenario &s) { scenarios().push_back(s); }

Probe::Probe(const char *name) {
  for (int i = 0; i < probe_count; i++)
    if (!strcmp(probe_names[i], name)) {
      id = i;
      return;
    }
  id = probe_count < MAXPROBES - 1 ? probe_count++ : MAXPROBES - 1;
  probe_names[id] = name;
}
void Probe::hit() { probe_hits[id]++; }

bool active() { return W.active; }
bool tracing() { return W.trace; }
i64 mono_now() { return W.now; }
i64 wall_now() { return W.now + W.wall_off; }
u64 seq() { return ++W.seqno; }
int self() { return W.cur ? W.cur->id : -1; }
bool had_stall() { return W.had_stall; }
bool had_clockstep() { return W.had_clk; }
i64 stall_total() { return W.stall_total; }
i64 stall_overlap(i64 t0) {
  i64 sum = 0;
  for (auto &p : W.stalls) {
    i64 a = p.first < t0 ? t0 : p.first, b = p.second < W.now ? p.second : W.now;
    if (b > a) sum += b - a;
  }
  return sum;
}
bool healing() { return W.heal; }
void set_faults_armed(bool on) { if (W.cur) W.cur->armed = on; }
bool faults_armed() { return W.cur && W.cur->armed; }
u32 fired(Kind k) { return W.out ? W.out->fired[k] : 0; }
void note_trivial(bool t) { W.trivial = t; }

static inline void fold(u64 &h, u64 v) {
  h ^= v;
  h *= 0x9FB21C651E98DF25ull;
  h ^= h >> 32;
}
void hash_in(u64 v) { fold(W.hash, v + 0x51ED27); }

// Formatting runs on a stack of its own: what a trace would leave behind below a
// fiber's stack pointer would otherwise be seen by code that reads memory it never
// wrote, and such a run would differ with and without a trace.
asm(R"(
.text
.globl sim_on_stack
.type sim_on_stack,@function
sim_on_stack:
  .cfi_startproc
  pushq %rbp
  .cfi_def_cfa_offset 16
  .cfi_offset %rbp,-16
  movq %rsp,%rbp
  .cfi_def_cfa_register %rbp
  movq %rdx,%rsp
  movq %rdi,%rax
  movq %rsi,%rdi
  call *%rax
  movq %rbp,%rsp
  popq %rbp
  .cfi_def_cfa %rsp,8
  ret
  .cfi_endproc
.size sim_on_stack,.-sim_on_stack
)");
extern "C" void sim_on_stack(void (*fn)(void *), void *arg, void *top);
alignas(64) static char log_stack[256 * 1024];
struct LogArg {
  const char *fmt;
  va_list *ap;
};
static void log_body(void *a_) {
  LogArg *a = (LogArg *)a_;
  char b[1024];
  vsnprintf(b, sizeof b, a->fmt, *a->ap);
  char h[160];
  snprintf(h, sizeof h, "%12.3f us  step %6llu  T%d%-12s ", W.now / 1e3, (unsigned long long)W.steps,
           W.cur ? W.cur->id : -1, W.cur ? (std::string("(") + W.cur->name + ")").c_str() : "");
  W.logbuf += h;
  W.logbuf += b;
  W.logbuf += "\n";
}
void log(const char *fmt, ...) {
  if (!W.trace) return;
  va_list ap;
  va_start(ap, fmt);
  LogArg a = {fmt, &ap};
  sim_on_stack(log_body, &a, log_stack + sizeof log_stack);
  va_end(ap);
}

void harness_error(const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  fprintf(stderr, "HARNESS-ERROR: ");
  vfprintf(stderr, fmt, ap);
  fprintf(stderr, "\n");
  va_end(ap);
  _exit(3);
}

static void to_runner() {
  void *dummy;
  W.active = false;
  sim_switch(&dummy, W.runner_sp);
  __builtin_trap();
}

static void record_violation(const char *cls, const char *msg) {
  if (W.out && !W.violated) {
    W.violated = true;
    W.out->violated = true;
    snprintf(W.out->cls, sizeof W.out->cls, "%s", cls);
    snprintf(W.out->msg, sizeof W.out->msg, "%s", msg);
    log("VIOLATION %s: %s", cls, msg);
    u64 h = 0;
    for (const char *p = cls; *p; p++) fold(h, (u8)*p);
    for (const char *p = msg; *p; p++) fold(h, (u8)*p);
    fold(W.hash, h);
  }
}

void violation(const char *cls, const char *fmt, ...) {
  char b[1024];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  if (!W.cur) harness_error("violation outside run: %s: %s", cls, b);
  record_violation(cls, b);
  to_runner();
  __builtin_unreachable();
}

void abandon(const char *why) {
  if (!W.cur) harness_error("outside run: %s", why);
  log("ABANDONED: %s", why);
  W.out->abandoned = true;
  W.trivial = true;
  to_runner();
  __builtin_unreachable();
}

// ------------------------------------------------------------------ switching
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8,%rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_switch,.-sim_switch
)");

static char *tls_block = nullptr;
static size_t tls_size = 0;
static std::vector<char> tls_init;

static int phdr_cb(struct dl_phdr_info *info, size_t, void *data) {
  if (*(int *)data) return 0;
  *(int *)data = 1;  // first = main executable
  for (int i = 0; i < info->dlpi_phnum; i++)
    if (info->dlpi_phdr[i].p_type == PT_TLS) {
      tls_size = info->dlpi_phdr[i].p_memsz;
      tls_block = (char *)info->dlpi_tls_data;
    }
  return 1;
}

static inline void save_host(Fiber *f) {
  f->sv_errno = errno;
  memcpy(f->cxa, (void *)abi::__cxa_get_globals(), 16);
  if (tls_size) memcpy(f->tlsimg, tls_block, tls_size);
}
static inline void load_host(Fiber *f) {
  errno = f->sv_errno;
  memcpy((void *)abi::__cxa_get_globals(), f->cxa, 16);
  if (tls_size) memcpy(tls_block, f->tlsimg, tls_size);
}

static void switch_to(Fiber *t) {
  Fiber *c = W.cur;
  if (t == c) return;
  W.switches++;
  W.consec = 0;
  W.quantum = 0;
  fold(W.ihash, ((u64)c->id << 40) | ((u64)c->lstep << 8) | (u64)t->id);
  if (W.trace) log("-- switch to T%d(%s)", t->id, t->name);
  save_host(c);
  W.cur = t;
  load_host(t);
  sim_switch(&c->sp, t->sp);
}

static void recompute_deadline() {
  i64 m = -1;
  for (int i = 0; i < W.nf; i++) {
    Fiber &f = W.f[i];
    i64 d = -1;
    if (f.st == F_BLOCKED && f.deadline >= 0)
      d = f.dl_wall ? f.deadline - W.wall_off : f.deadline;
    else if (f.st == F_STALLED)
      d = f.stall_until;
    else
      continue;
    if (d < 0) d = 0;
    if (m < 0 || d < m) m = d;
  }
  W.next_deadline = m;
}

static void expire() {
  for (int i = 0; i < W.nf; i++) {
    Fiber &f = W.f[i];
    if (f.st == F_BLOCKED && f.deadline >= 0) {
      i64 d = f.dl_wall ? f.deadline - W.wall_off : f.deadline;
      if (d <= W.now) {
        f.st = F_READY;
        f.timed_out = true;
        f.deadline = -1;
        W.dirty = true;
      }
    } else if (f.st == F_STALLED && f.stall_until <= W.now) {
      f.st = F_READY;
      W.dirty = true;
    }
  }
  recompute_deadline();
}

void wake(Fiber *f) {
  if (f->st != F_BLOCKED) return;
  f->st = F_READY;
  f->timed_out = false;
  f->deadline = -1;
  W.dirty = true;
  recompute_deadline();
}

static int runnable_list(int *out, int start) {
  int n = 0;
  for (int k = 0; k < W.nf; k++) {
    int i = (start + k) % W.nf;
    if (W.f[i].st == F_READY) out[n++] = i;
  }
  return n;
}

static void note_choice(Kind k, int fid, u32 idx, u64 v) {
  W.out->fired[k]++;
  fold(W.hash, 0xC401CEull ^ ((u64)k << 32) ^ v);
  fold(W.ihash, 0xC401CEull ^ ((u64)k << 40) ^ ((u64)fid << 56) ^ ((u64)idx << 8) ^ v);
  if (W.trace && k != K_PICK) log("-- fault %s = %llu", kind_name[k], (unsigned long long)v);
}

// choose who runs when the current fiber cannot
static void dispatch_blocked() {
  for (;;) {
    int l[MAXF];
    int n = runnable_list(l, W.cur->id + 1);
    if (n > 0) {
      int idx = 0;
      if (n > 1 && !W.heal) {
        u64 v = 0;
        if (W.replay) {
          v = choose(K_PICK, n - 1);
          if ((int)v >= n) v = 0;
          idx = (int)v;
        } else {
          if (W.strat == 2) {
            for (int j = 1; j < n; j++)
              if (W.f[l[j]].prio > W.f[l[idx]].prio) idx = j;
          } else
            idx = (int)W.rs.below(n);
          Fiber *c = W.cur;
          u32 ci = c->cidx[K_PICK]++;
          if (idx) {
            W.out->choices.push_back({K_PICK, (u8)c->id, ci, (u64)idx});
            note_choice(K_PICK, c->id, ci, (u64)idx);
          }
        }
      }
      switch_to(&W.f[l[idx]]);
      return;
    }
    if (W.next_deadline < 0) {
      std::string s = "no thread can run:";
      for (int i = 0; i < W.nf; i++)
        if (W.f[i].st == F_BLOCKED) {
          char b[96];
          snprintf(b, sizeof b, " T%d(%s) blocked in %s;", i, W.f[i].name, W.f[i].wwhy);
          s += b;
        }
      violation("deadlock", "%s", s.c_str());
    }
    if (W.next_deadline > W.now) W.now = W.next_deadline;
    expire();
    W.steps++;
    if (W.steps > W.hard_cap)
      violation("no-progress", "step cap %llu exceeded while idle-waiting", (unsigned long long)W.hard_cap);
  }
}

bool block(const void *obj, const char *why, i64 deadline, bool wall) {
  Fiber *f = W.cur;
  f->st = F_BLOCKED;
  f->wobj = obj;
  f->wwhy = why;
  f->deadline = deadline;
  f->dl_wall = wall;
  f->timed_out = false;
  recompute_deadline();
  if (W.next_deadline >= 0 && W.next_deadline <= W.now) expire();
  if (f->st != F_READY) dispatch_blocked();
  f->wobj = nullptr;
  return f->timed_out;
}

void forced_yield() {
  int l[MAXF];
  int n = runnable_list(l, W.cur->id + 1);
  if (n > 0 && l[0] != W.cur->id) {
    if (W.strat == 2 && !W.replay) W.cur->prio = --W.pct_low;
    switch_to(&W.f[l[0]]);
  }
}

static void do_stall(i64 d) {
  W.had_stall = true;
  W.stalls.push_back({W.now, W.now + d});
  W.out->sfired[S_STALL]++;
  Fiber *f = W.cur;
  fold(W.ihash, 0x57A11ull ^ ((u64)f->id << 48) ^ ((u64)f->lstep << 16));
  if (W.trace) log("-- STALL T%d for %.3f ms", f->id, d / 1e6);
  f->st = F_STALLED;
  f->stall_until = W.now + d;
  recompute_deadline();
  dispatch_blocked();
}
static void do_clock(i64 d) {
  W.had_clk = true;
  W.wall_off += d;
  W.out->sfired[S_CLOCK]++;
  fold(W.ihash, 0xC10C4ull ^ (u64)d);
  if (W.trace) log("-- WALL CLOCK STEP %+.3f ms", d / 1e6);
  recompute_deadline();
  if (W.next_deadline >= 0 && W.next_deadline <= W.now) expire();
}
static void do_switch(int t) {
  W.out->sfired[S_SWITCH]++;
  switch_to(&W.f[t]);
}

static i64 log_uniform(Rng &r, i64 lo, i64 hi) {
  int a = 63 - __builtin_clzll((u64)lo), b = 63 - __builtin_clzll((u64)hi);
  int e = a + (int)r.below(b - a + 1);
  i64 v = (1ll << e) + (i64)r.below(1ull << e);
  return v < lo ? lo : v > hi ? hi : v;
}

static void rec_sched(u8 kind, i64 arg) {
  W.out->sched.push_back({(u8)W.cur->id, W.cur->lstep, kind, arg});
}

static u64 geo(Rng &r, u64 mean) { return 1 + r.below(2 * mean); }

void point(PType t, const void *addr) {
  Fiber *f = W.cur;
  f->lstep++;
  W.steps++;
  W.consec++;
  u64 sp = (u64)__builtin_frame_address(0);
  if (sp < f->minsp) f->minsp = sp;
  W.now += t == P_SYNC ? 200 : 10;
  if (__builtin_expect(t == P_SYNC && W.npend, 0)) stores_drain(f, nullptr, 0);
  // thread-local storage is the host's, at an address that differs from process to process
  if (__builtin_expect((u64)addr >= 0x7e0000000000ull, 0)) addr = (void *)((u64)addr & 7);
  fold(W.hash, ((u64)addr << 6) ^ ((u64)f->id << 2) ^ t);
  if (W.next_deadline >= 0 && W.now >= W.next_deadline) expire();
  if (__builtin_expect(W.steps > W.max_steps, 0)) {
    if (!W.heal) {
      W.heal = true;
      W.out->healed = true;
      if (W.trace) log("-- HEAL: faults stop, fair round-robin from here");
    }
    if (W.steps > W.hard_cap)
      violation("no-progress",
                "operations did not complete within %llu steps after faults stopped",
                (unsigned long long)(W.hard_cap - W.max_steps));
    if (++W.quantum >= 20) {
      W.quantum = 0;
      forced_yield();
    }
    return;
  }
  if (W.consec > 5000) {
    W.consec = 0;
    forced_yield();
    f = W.cur;
    return;
  }
  if (W.replay) {
    std::vector<SchedEnt> &v = W.per_fiber[f->id];
    while (f->scur < v.size() && v[f->scur].lstep < f->lstep) f->scur++;
    while (f->scur < v.size() && v[f->scur].lstep == f->lstep) {
      SchedEnt e = v[f->scur++];
      if (e.kind == S_STALL)
        do_stall(e.arg);
      else if (e.kind == S_CLOCK)
        do_clock(e.arg);
      else if (e.arg >= 0 && e.arg < W.nf && W.f[e.arg].st == F_READY && e.arg != f->id)
        do_switch((int)e.arg);
    }
    return;
  }
  // ---- search
  if (W.steps >= W.next_clk && W.clk_mean) {
    W.next_clk = W.steps + geo(W.rs, W.clk_mean);
    i64 d = log_uniform(W.rs, 1000000, 7200ll * 1000000000);
    if (W.rs.below(2)) d = -d;
    rec_sched(S_CLOCK, d);
    do_clock(d);
  }
  if (W.steps >= W.next_stall && W.stall_mean) {
    W.next_stall = W.steps + geo(W.rs, W.stall_mean);
    i64 d = log_uniform(W.rs, 1000, 4000000000ll);
    rec_sched(S_STALL, d);
    do_stall(d);
    return;
  }
  if (W.nf < 2) return;
  switch (W.strat) {
    case 0:
      break;
    case 1:
      if (W.steps >= W.next_ev) {
        W.next_ev = W.steps + geo(W.rs, W.mean);
        int l[MAXF];
        int n = runnable_list(l, f->id + 1);
        if (n > 0 && l[n - 1] == f->id) n--;
        if (n > 0) {
          int t2 = l[W.rs.below(n)];
          rec_sched(S_SWITCH, t2);
          do_switch(t2);
        }
      }
      break;
    case 2: {
      while (W.pct_i < W.pct_points.size() && W.steps >= W.pct_points[W.pct_i]) {
        W.pct_i++;
        f->prio = --W.pct_low;
        W.dirty = true;
      }
      if (W.dirty) {
        W.dirty = false;
        int best = f->id;
        for (int i = 0; i < W.nf; i++)
          if (W.f[i].st == F_READY && W.f[i].prio > W.f[best].prio) best = i;
        if (best != f->id) {
          rec_sched(S_SWITCH, best);
          do_switch(best);
        }
      }
      break;
    }
    case 3:
      if (t != P_MEM && W.rs.below(W.sync_den) == 0) {
        int l[MAXF];
        int n = runnable_list(l, f->id + 1);
        if (n > 0 && l[n - 1] == f->id) n--;
        if (n > 0) {
          int t2 = l[W.rs.below(n)];
          rec_sched(S_SWITCH, t2);
          do_switch(t2);
        }
      }
      break;
  }
}

u64 choose(Kind k, u64 nalts) {
  if (!W.active || !W.cur || nalts == 0) return 0;
  Fiber *f = W.cur;
  if (W.heal && k != K_PICK) return 0;
  u32 idx = f->cidx[k]++;
  u64 v = 0;
  if (W.replay) {
    for (const ChoiceEnt &e : W.in->choices)
      if (e.kind == k && e.fiber == f->id && e.idx == idx) {
        v = e.val;
        break;
      }
    if (v > nalts) v = nalts;
    if (v) W.out->choices.push_back({(u8)k, (u8)f->id, idx, v});
  } else {
    if (W.rate[k] && W.rc.below(65536) < W.rate[k]) v = 1 + W.rc.below(nalts);
    // in a storm of interruptions nearly all come almost at once: the last four alternatives of a sleep's
    if (v && k == K_EINTR && W.rate[k] > 60000 && nalts > 4 && W.rc.below(16)) v = nalts - W.rc.below(4);
    if (v) W.out->choices.push_back({(u8)k, (u8)f->id, idx, v});
  }
  if (v) note_choice(k, f->id, idx, v);
  return v;
}

// --------------------------------------------------------------------- fibers
static void fiber_main();
extern "C" void sim_fiber_tramp();
asm(R"(
.text
.globl sim_fiber_tramp
.type sim_fiber_tramp,@function
sim_fiber_tramp:
  .cfi_startproc
  .cfi_undefined rip
  xorl %ebp,%ebp
  call sim_fiber_entry
  ud2
  .cfi_endproc
)");
extern "C" void sim_fiber_entry() { fiber_main(); }

static void reset_fiber_stack(Fiber &f) {
  // Make whatever garbage a fresh stack shows a function of nothing but the code.
  u64 lo = f.minsp ? f.minsp : (u64)f.hi;
  lo = lo > (u64)f.lo + 8192 ? lo - 8192 : (u64)f.lo;
  if (lo < (u64)f.lo) lo = (u64)f.lo;
  if (lo < (u64)f.hi) memset((void *)lo, 0, (u64)f.hi - lo);
  asan_clear(lo, (u64)f.hi);
  f.minsp = (u64)f.hi;
}

Fiber *new_fiber(const char *name) {
  int id = W.nf;
  if (id >= MAXF)  // one whose thread has ended and been reaped can be another thread
    for (id = 1; id < MAXF && !posix_reaped(&W.f[id]);) id++;
  if (id >= MAXF) return nullptr;
  Fiber &f = W.f[id];
  bool again = id < W.nf;
  char *lo = f.lo, *hi = f.hi, *img = f.tlsimg;
  u64 msp = f.minsp;
  u32 clock = 0, lstep = 0, scur = 0, cidx[K_NKINDS] = {0};
  if (again) {  // its place in the recorded schedule and its clock go on
    stores_drain(&f, nullptr, 0);
    clock = f.vc.c[id], lstep = f.lstep, scur = f.scur;
    memcpy(cidx, f.cidx, sizeof cidx);
    race_clear((void *)msp, (u64)hi - msp);
  }
  memset((void *)&f, 0, sizeof f);
  f.lo = lo;
  f.hi = hi;
  f.tlsimg = img;
  f.minsp = msp;
  f.id = id;
  f.deadline = -1;
  f.slot = -1;
  snprintf(f.name, sizeof f.name, "%s", name);
  reset_fiber_stack(f);
  if (tls_size) memcpy(f.tlsimg, tls_init.data(), tls_size);
  u64 *sp = (u64 *)(f.hi - 64);  // 16-aligned when the trampoline starts
  *--sp = (u64)(void *)&sim_fiber_tramp;  // return address
  for (int i = 0; i < 6; i++) *--sp = 0;
  --sp;
  ((u32 *)sp)[0] = 0x1F80;
  ((u32 *)sp)[1] = 0x037F;
  f.sp = sp;
  f.prio = 0;
  if (W.cur) {
    f.vc = W.cur->vc;
    hb_tick();
  }
  f.vc.c[id] = 1;
  if (again) {
    f.vc.c[id] = clock + 1, f.lstep = lstep, f.scur = scur;
    memcpy(f.cidx, cidx, sizeof cidx);
  } else
    W.nf++;
  posix_new_fiber(&f);
  return &f;
}
void start_fiber(Fiber *f) {
  f->st = F_READY;
  W.dirty = true;
  if (W.strat == 2 && !W.replay) f->prio = 1 + (i64)W.rs.below(1000);
  W.out->nfibers = W.nf;
}

struct ThreadExit { void *v; };

void fiber_exit_current() {
  Fiber *f = W.cur;
  f->st = F_DONE;
  if (f->id == 0) {
    to_runner();
  }
  // wake joiners
  for (int i = 0; i < W.nf; i++)
    if (W.f[i].st == F_BLOCKED && W.f[i].wobj == f) wake(&W.f[i]);
  dispatch_blocked();
  __builtin_trap();
}

static void fiber_main() {
  Fiber *f = W.cur;
  try {
    if (f->id == 0) {
      W.scn->run(W.in->replay ? W.in->plan : W.out->plan);
    } else if (f->pfn) {
      f->retval = f->pfn(f->parg);
    } else {
      f->cfn(f->parg);
    }
  } catch (ThreadExit &e) {
    f->retval = e.v;
  } catch (std::exception &e) {
    violation("uncaught-exception", "T%d(%s): %s", f->id, f->name, e.what());
  } catch (...) {
    violation("uncaught-exception", "T%d(%s): unknown exception", f->id, f->name);
  }
  posix_thread_finish(f);
  fiber_exit_current();
}

int spawn(void (*fn)(void *), void *arg, const char *name) {
  point(P_SYNC);
  Fiber *f = new_fiber(name);
  if (!f) harness_error("too many threads in scenario %s", W.scn->name);
  f->cfn = fn;
  f->parg = arg;
  start_fiber(f);
  return f->id;
}
void join(int id) {
  point(P_SYNC);
  Fiber *t = &W.f[id];
  while (t->st != F_DONE) block(t, "client join", -1, false);
  vc_join(W.cur->vc, t->vc);
}
void yield_point() { point(P_SYNC); }
void sleep_ns(i64 ns) {
  point(P_SYNC);
  block(W.cur, "client sleep", W.now + ns, false);
}

// ---------------------------------------------------------------- SUT statics
extern "C" {
extern char sim_sut_data_begin[], sim_sut_data_end[], sim_sut_bss_begin[], sim_sut_bss_end[];
}
static std::vector<char> snap_data, snap_bss;
static void snapshot_statics() {
  if (sim_sut_data_end < sim_sut_data_begin || sim_sut_bss_end < sim_sut_bss_begin)
    harness_error("SUT static-data markers out of order");
  snap_data.assign(sim_sut_data_begin, sim_sut_data_end);
  snap_bss.assign(sim_sut_bss_begin, sim_sut_bss_end);
}
static void restore_statics() {
  if (!snap_data.empty()) memcpy(sim_sut_data_begin, snap_data.data(), snap_data.size());
  if (!snap_bss.empty()) memcpy(sim_sut_bss_begin, snap_bss.data(), snap_bss.size());
}

// --------------------------------------------------------------------- signals
static void on_segv(int sig, siginfo_t *si, void *uc_) {
  if (!W.active || !W.cur) {
    signal(sig, SIG_DFL);
    raise(sig);
    return;
  }
  ucontext_t *uc = (ucontext_t *)uc_;
  u64 pc = (u64)uc->uc_mcontext.gregs[REG_RIP];
  char b[256];
  const char *cls = "segv";
  u64 a = (u64)si->si_addr;
  if (sig == SIGFPE) cls = "sigfpe";
  if (sig == SIGVTALRM || sig == SIGALRM) cls = "hang";
  if (sig == SIGILL) cls = "sigill";
  if (sig == SIGABRT) cls = "abort";
  for (int i = 0; i < MAXF; i++)
    if (a >= (u64)W.f[i].lo - 65536 && a < (u64)W.f[i].lo) cls = "stack-overflow";
  bool in_stack = !strcmp(cls, "stack-overflow");
  if (a > 0x7f0000000000ull || in_stack || !strcmp(cls, "hang"))
    snprintf(b, sizeof b, "signal %d in library code%s", sig, in_stack ? " (unbounded recursion)" : "");
  else
    snprintf(b, sizeof b, "signal %d at address 0x%llx pc 0x%llx", sig, (unsigned long long)a,
             (unsigned long long)(pc < 0x10000000 ? pc : 0));
  record_violation(cls, b);
  to_runner();
}

static void on_terminate() {
  if (W.active && W.cur)
    violation("terminate", "std::terminate called in T%d (an exception escaped a destructor or a noexcept function)", W.cur->id);
  abort();
}

void init_process() {
  static bool done = false;
  if (done) return;
  done = true;
  char *p = (char *)mmap(STACK_BASE, (STACK_SZ + 65536) * MAXF, PROT_NONE,
                         MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
  if (p != STACK_BASE) harness_error("cannot map fiber stacks");
  int z = 0;
  dl_iterate_phdr(phdr_cb, &z);
  if (tls_size) tls_init.assign(tls_block, tls_block + tls_size);
  for (int i = 0; i < MAXF; i++) {
    W.f[i].lo = STACK_BASE + i * (STACK_SZ + 65536) + 65536;
    W.f[i].hi = W.f[i].lo + STACK_SZ;
    W.f[i].minsp = (u64)W.f[i].hi;
    W.f[i].tlsimg = (char *)calloc(1, tls_size + 16);
    if (mprotect(W.f[i].lo, STACK_SZ, PROT_READ | PROT_WRITE)) harness_error("mprotect");
  }
  stack_t ss;
  memset(&ss, 0, sizeof ss);
  ss.ss_size = 128 * 1024;
  ss.ss_sp = malloc(ss.ss_size);
  sigaltstack(&ss, nullptr);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_segv;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  sigaction(SIGSEGV, &sa, nullptr);
  sigaction(SIGBUS, &sa, nullptr);
  sigaction(SIGFPE, &sa, nullptr);
  sigaction(SIGILL, &sa, nullptr);
  sigaction(SIGVTALRM, &sa, nullptr);
  sigaction(SIGABRT, &sa, nullptr);
  std::set_terminate(on_terminate);
  snapshot_statics();
}

const char *strategy_name(int s) {
  static const char *const n[] = {"sequential", "random-preempt", "pct", "sync-points"};
  return n[s & 3];
}

static void setup_strategy(u64 seed, u32 mask) {
  Rng r(mix(seed, 0x5C4ED));
  W.rs = Rng(mix(seed, 0x5C4ED2));
  W.rc = Rng(mix(seed, 0xC401CE));
  u64 x = r.below(20);
  W.strat = x < 1 ? 0 : x < 8 ? 1 : x < 14 ? 2 : 3;
  if (mask & SF_NOPREEMPT) W.strat = 0;
  static const u64 means[] = {1, 2, 4, 8, 16, 32, 64, 128, 300};
  W.mean = means[r.below(9)];
  W.next_ev = 1 + r.below(2 * W.mean);
  W.sync_den = 1 + (u32)r.below(6);
  W.pct_points.clear();
  W.pct_i = 0;
  W.pct_low = 0;
  if (W.strat == 2) {
    int d = (int)r.below(6);
    u64 k = 30ull << r.below(8);
    for (int i = 0; i < d; i++) W.pct_points.push_back(1 + r.below(k));
    std::sort(W.pct_points.begin(), W.pct_points.end());
  }
  W.stall_mean = 0;
  W.clk_mean = 0;
  W.next_stall = W.next_clk = ~0ull;
  if ((mask & SF_STALL) && r.below(3) == 0) {
    W.stall_mean = 20ull << r.below(7);
    W.next_stall = 1 + r.below(2 * W.stall_mean);
  }
  if ((mask & SF_CLOCK) && r.below(3) == 0) {
    W.clk_mean = 20ull << r.below(6);
    W.next_clk = 1 + r.below(2 * W.clk_mean);
  }
  bool none = r.below(8) == 0;  // some runs are entirely fault free
  for (int k = 0; k < K_NKINDS; k++) {
    W.rate[k] = 0;
    u64 en = r.below(2), lv = r.below(5);
    static const u32 rates[] = {700, 2500, 6500, 16000, 40000};
    if ((mask & bit((Kind)k)) && en && !none) W.rate[k] = rates[lv];
    if ((k == K_EINTR || k == K_SPURIOUS) && W.rate[k] && r.below(8) == 0) W.rate[k] = r.below(8) ? 64500 : 65450;  // hardly a wait goes undisturbed
  }
  W.rate[K_PICK] = 0;
  if (mask & bit(K_WAKE)) W.rate[K_WAKE] = r.below(2) ? 32768 : 6000;
}

void execute(const RunInput &in, RunResult &out) {
  out = RunResult();
  W.in = &in;
  W.out = &out;
  W.scn = in.scn;
  W.replay = in.replay;
  W.trace = in.trace;
  W.logbuf.clear();
  W.nf = 0;
  W.cur = nullptr;
  W.now = 5000000000ll;
  W.wall_off = 0;
  W.next_deadline = -1;
  W.steps = W.hash = W.ihash = W.seqno = 0;
  W.switches = 0;
  W.heal = false;
  W.quantum = W.consec = 0;
  W.max_steps = in.scn->max_steps;
  W.hard_cap = W.max_steps * 6;
  W.had_stall = W.had_clk = false;
  W.stall_total = 0;
  W.npend = 0;
  W.stalls.clear();
  W.violated = false;
  W.dirty = false;
  W.trivial = false;
  W.gen++;
  for (int i = 0; i < MAXF; i++) W.per_fiber[i].clear();
  if (in.replay) {
    out.plan = in.plan;
    for (const SchedEnt &e : in.sched)
      if (e.fiber < MAXF) W.per_fiber[e.fiber].push_back(e);
    for (int i = 0; i < MAXF; i++)
      std::stable_sort(W.per_fiber[i].begin(), W.per_fiber[i].end(),
                       [](const SchedEnt &a, const SchedEnt &b) { return a.lstep < b.lstep; });
    W.strat = 0;
    W.rs = Rng(1);
    W.rc = Rng(1);
    memset(W.rate, 0, sizeof W.rate);
  } else {
    Rng rp(mix(in.seed, 0x91A17));
    in.scn->gen(rp, out.plan);
    setup_strategy(in.seed, in.scn->faults);
  }
  // plan-derived environment: start time within the second, heap fill
  u64 ph = 0x1234;
  for (i64 v : out.plan.cfg) fold(ph, (u64)v);
  // cfg[0] by convention seeds the environment (start time, heap fill byte)
  u64 env = out.plan.cfg.empty() ? 0 : (u64)out.plan.cfg[0];
  Rng re(mix(env, 77));
  W.now += (i64)re.below(1000000000);
  W.wall_off = 1700000000ll * 1000000000 + (i64)re.below(1000000000ull);
  if (re.below(2)) {
    // start close below a second boundary of the wall clock
    i64 w = W.now + W.wall_off;
    W.wall_off += 999999999 - w % 1000000000 - (i64)re.below(3000000);
  }
  // in some runs every reading of a clock falls on a tick: the reader was held up until then
  static const i64 ticks[] = {1, 1, 1, 1000, 1000000, 1000000, 10000000, 100000000};
  W.tick = (in.scn->faults & SF_CLOCK) ? ticks[re.below(8)] : 1;
  W.fill = (u8)(re.below(3) == 0 ? 0 : re.next());
  for (const Op &o : out.plan.ops) {
    fold(ph, o.code);
    fold(ph, o.thr);
    fold(ph, o.a);
    fold(ph, o.b);
    fold(ph, o.c);
  }
  W.ihash = ph;
  i64 t0 = W.now;
  restore_statics();
  heap_reset();
  posix_reset();
  Fiber *f0 = new_fiber("main");
  W.cur = f0;
  start_fiber(f0);
  char host_cxa[16];
  memcpy(host_cxa, (void *)abi::__cxa_get_globals(), 16);
  int host_errno = errno;
  load_host(f0);
  struct itimerval it;
  memset(&it, 0, sizeof it);
  static u32 nrun = 0;
  static pid_t last_pid = 0;
  if (last_pid != getpid()) last_pid = getpid(), nrun = 0;
  if ((nrun++ & 63) == 0 || in.replay) {
    it.it_value.tv_sec = in.replay ? 5 : 20;
    setitimer(ITIMER_VIRTUAL, &it, nullptr);
  }
  W.active = true;
  sim_switch(&W.runner_sp, f0->sp);
  W.active = false;
  W.cur = nullptr;
  memcpy((void *)abi::__cxa_get_globals(), host_cxa, 16);
  errno = host_errno;
  if (tls_size) memcpy(tls_block, tls_init.data(), tls_size);
  fold(W.hash, (u64)W.now);
  fold(W.hash, W.steps);
  out.hash = W.hash;
  out.ihash = W.ihash;
  out.steps = W.steps;
  out.simtime = W.now - t0;
  out.switches = W.switches;
  out.trivial = W.trivial;
  out.strategy = W.strat;
  out.log.swap(W.logbuf);
  W.out = nullptr;
}

[[noreturn]] void throw_thread_exit(void *v) { throw ThreadExit{v}; }
}  // namespace sim

extern "C" unsigned long sim_c_choose(int kind, unsigned long n) {
  return sim::choose((sim::Kind)kind, n);
}
extern "C" void sim_c_violation(const char *cls, const char *msg) { sim::violation(cls, "%s", msg); }
extern "C" void sim_c_point(void) {
  if (sim::W.active) sim::point(sim::P_SYNC);
}
