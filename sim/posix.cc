// Simulated operating-system interface: threads, mutexes, condition variables,
// clocks, sleeps, thread-specific data, sysconf, stdio output. The code under
// test is linked against these instead of libc/libpthread.
#include "kernel.h"

#include <errno.h>
#include <limits.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#include <unordered_map>

namespace sim {
[[noreturn]] void throw_thread_exit(void *v);

struct MutexRec {
  const void *addr;
  int type;
  int owner;
  int depth;
  bool live;
  VC vc;
};
struct CondRec {
  const void *addr;
  bool live;
  clockid_t clk;
  std::vector<int> waiters;
  int users = 0;
};
struct RwRec { int readers = 0; int writer = -1; VC vc, rvc; };
struct SemRec { unsigned v = 0; VC vc; };
struct BarRec { unsigned need, in; u64 gen; VC vc; };
struct OnceRec { int st = 0; VC vc; };

static std::unordered_map<const void *, MutexRec> mtx;
static std::unordered_map<const void *, CondRec> cnd;
static std::unordered_map<const void *, RwRec> rws;
static std::unordered_map<const void *, SemRec> sems;
static std::unordered_map<const void *, OnceRec> onces;
static std::unordered_map<const void *, BarRec> bars;

enum { NSLOTS = 32, NKEYS = 1024 };
static char slot_mem[NSLOTS][4096] __attribute__((aligned(4096)));
static int slot_fiber[NSLOTS];  // -1 free
struct KeyRec { bool live; u32 gen; void (*dtor)(void *); };
static KeyRec keys[NKEYS];
static int nkeys;  // the first nkeys have been live in this run
static u32 keygen = 0;  // never goes back: what an earlier run left in tls[] belongs to no live key
struct Specific { void *v; u32 gen; };
static Specific tls[MAXF][NKEYS];
static int timelag_ms = 0;
static bool timelag_set = false;
static int created = 0;
std::string *io_out = nullptr;
static bool io_err;  // the output stream's error indicator

static const u64 MAGIC_M = 0x5D4D757465780000ull, MAGIC_C = 0x5D436F6E64000000ull,
                 MAGIC_DEAD = 0xDEADDEADDEAD0000ull;

void posix_reset() {
  mtx.clear();
  cnd.clear();
  rws.clear();
  sems.clear();
  onces.clear();
  bars.clear();
  for (int i = 0; i < NSLOTS; i++) slot_fiber[i] = -1;
  memset(keys, 0, sizeof keys[0] * nkeys);
  nkeys = 0;
  timelag_set = false;
  timelag_ms = 0;
  created = 0;
  if (!io_out) io_out = new std::string;
  io_out->clear();
  io_err = false;
}
int sut_threads_created() { return created; }
int sut_threads_unreaped() {
  int n = 0;
  for (int i = 0; i < W.nf; i++)
    if (W.f[i].is_pthread && !W.f[i].joined && !(W.f[i].detached)) n++;
  return n;
}
u32 thread_count_live() {
  u32 n = 0;
  for (int i = 0; i < W.nf; i++)
    if (W.f[i].is_pthread && W.f[i].st != F_DONE) n++;
  return n;
}

static pthread_t slot_handle(int s) { return (pthread_t)(void *)slot_mem[s]; }
static int handle_slot(pthread_t t) {
  char *p = (char *)(void *)t;
  if (p < slot_mem[0] || p >= slot_mem[0] + sizeof slot_mem) return -1;
  if ((p - slot_mem[0]) % 4096) return -1;
  return (int)((p - slot_mem[0]) / 4096);
}
static void ensure_slot(Fiber *f) {
  if (f->slot >= 0) return;
  // client threads created by the harness get a handle on first use
  for (int i = 0; i < NSLOTS; i++)
    if (slot_fiber[i] < 0) {
      slot_fiber[i] = f->id;
      f->slot = i;
      return;
    }
  harness_error("out of thread slots");
}

bool posix_reaped(Fiber *f) {
  return f->is_pthread && f->st == F_DONE && (f->joined || f->detached) && slot_fiber[f->slot] != f->id;
}
void posix_new_fiber(Fiber *f) {
  for (int k = 0; k < nkeys; k++) tls[f->id][k].gen = 0;
}
void posix_thread_finish(Fiber *f) {
  // thread-specific data destructors
  for (int round = 0; round < 4; round++) {
    bool any = false;
    for (int k = 0; k < nkeys; k++)
      if (keys[k].live && keys[k].dtor && tls[f->id][k].gen == keys[k].gen && tls[f->id][k].v) {
        void *v = tls[f->id][k].v;
        tls[f->id][k].v = nullptr;
        keys[k].dtor(v);
        any = true;
      }
    if (!any) break;
  }
  for (auto &m : mtx)
    if (m.second.live && m.second.owner == f->id) {
      log("T%d exits holding a mutex", f->id);
    }
  if (f->is_pthread && f->detached) slot_fiber[f->slot] = -1;
}

// race-detector view of a sync object: init/destroy are writes, uses are reads
static void obj_touch(const void *a, bool write, void *pc) {
  check_addr(a, 8, write, pc);
  mem_access(a, 8, write, !write, pc);
}

static void stamp(void *a, size_t n, u64 magic) {
  u64 *p = (u64 *)a;
  for (size_t i = 0; i < n / 8; i++) p[i] = magic ^ i;
}
static bool stamped(const void *a, size_t n, u64 magic) {
  const u64 *p = (const u64 *)a;
  for (size_t i = 0; i < n / 8; i++)
    if (p[i] != (magic ^ i)) return false;
  return true;
}
static bool all_zero(const void *a, size_t n) {
  const u64 *p = (const u64 *)a;
  for (size_t i = 0; i < n / 8; i++)
    if (p[i]) return false;
  return true;
}

static MutexRec &get_mutex(pthread_mutex_t *m, const char *op, void *pc) {
  check_addr(m, sizeof *m, true, pc);
  auto it = mtx.find(m);
  if (it != mtx.end() && it->second.live) {
    if (!stamped(m, sizeof *m, MAGIC_M))
      violation("sync-object-corrupted", "%s: the mutex's memory was overwritten (pc %p)", op, pc);
    obj_touch(m, false, pc);
    return it->second;
  }
  if (all_zero(m, sizeof *m)) {
    stamp(m, sizeof *m, MAGIC_M);
    MutexRec r;
    memset((void *)&r, 0, sizeof r);
    r.addr = m;
    r.owner = -1;
    r.live = true;
    return mtx[m] = r;
  }
  violation("api-misuse", "%s on a mutex that is %s (pc %p)", op,
            stamped(m, sizeof *m, MAGIC_DEAD) ? "already destroyed" : "not initialised", pc);
}
static CondRec &get_cond(pthread_cond_t *c, const char *op, void *pc) {
  check_addr(c, sizeof *c, true, pc);
  auto it = cnd.find(c);
  if (it != cnd.end() && it->second.live) {
    if (!stamped(c, sizeof *c, MAGIC_C))
      violation("sync-object-corrupted", "%s: the condition variable's memory was overwritten (pc %p)",
                op, pc);
    obj_touch(c, false, pc);
    return it->second;
  }
  if (all_zero(c, sizeof *c)) {
    stamp(c, sizeof *c, MAGIC_C);
    CondRec r;
    r.addr = c;
    r.live = true;
    r.clk = CLOCK_REALTIME;
    return cnd[c] = r;
  }
  violation("api-misuse", "%s on a condition variable that is %s (pc %p)", op,
            stamped(c, sizeof *c, MAGIC_DEAD) ? "already destroyed" : "not initialised", pc);
}

static int mutex_lock_core(pthread_mutex_t *m, void *pc, bool reacquire, i64 deadline, bool wall = true) {
  wall = wall && deadline >= 0;
  MutexRec *r = &get_mutex(m, "pthread_mutex_lock", pc);
  int me = W.cur->id;
  if (r->owner == me && !reacquire) {
    if (r->type == PTHREAD_MUTEX_RECURSIVE) {
      r->depth++;
      return 0;
    }
    if (r->type == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
    // a normal mutex self-deadlocks
  }
  while (r->owner >= 0) {
    bool to = block(m, "mutex lock", deadline, wall);
    r = &get_mutex(m, "pthread_mutex_lock", pc);
    if (to && r->owner >= 0) return ETIMEDOUT;
  }
  r->owner = me;
  r->depth = 1;
  hb_acquire(r->vc);
  return 0;
}
static int mutex_unlock_core(pthread_mutex_t *m, void *pc) {
  MutexRec &r = get_mutex(m, "pthread_mutex_unlock", pc);
  if (r.owner != W.cur->id) {
    if (r.type == PTHREAD_MUTEX_ERRORCHECK || r.type == PTHREAD_MUTEX_RECURSIVE) return EPERM;
    violation("api-misuse", "mutex unlocked by T%d but %s%d (pc %p)", W.cur->id,
              r.owner < 0 ? "not locked, owner " : "owned by T", r.owner, pc);
  }
  if (--r.depth > 0) return 0;
  r.owner = -1;
  hb_release(r.vc);
  for (int i = 0; i < W.nf; i++)
    if (W.f[i].st == F_BLOCKED && W.f[i].wobj == m) wake(&W.f[i]);
  return 0;
}

static i64 ts_ns(const struct timespec *t) { return (i64)t->tv_sec * 1000000000 + t->tv_nsec; }
static void until_tick(i64 t) {
  if (W.tick <= 1 || t % W.tick == 0) return;
  i64 d = W.tick - t % W.tick;
  W.now += d;
  W.stall_total += d;
  SIM_PROBE("clock: read exactly on a tick");
}
static i64 clock_ns(clockid_t c) {
  switch (c) {
    case CLOCK_REALTIME:
    case CLOCK_REALTIME_COARSE:
      until_tick(wall_now());
      return wall_now();
    default:
      until_tick(mono_now());
      return mono_now();
  }
}

static int cond_wait_core(pthread_cond_t *c, pthread_mutex_t *m, clockid_t clk,
                          const struct timespec *ts, void *pc) {
  get_cond(c, "pthread_cond_wait", pc);
  MutexRec &r = get_mutex(m, "pthread_cond_wait", pc);
  if (ts && (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000)) return EINVAL;
  if (r.owner != W.cur->id)
    violation("api-misuse", "condition wait without holding the mutex (pc %p)", pc);
  if (clk == (clockid_t)-1) clk = cnd[c].clk;
  bool wall = clk == CLOCK_REALTIME;
  i64 dl = -1;
  if (ts) {
    dl = ts_ns(ts);
    if (dl < 0) dl = 0;
    if (u64 v = choose(K_LATE, 6)) {
      i64 d = 1000000ll << (2 * v);
      dl += d;
      W.stall_total += d;
    }
  }
  // release + wait is atomic with respect to signal
  int me = W.cur->id;
  cnd[c].waiters.push_back(me);
  W.cur->wake_signal = false;
  int depth = r.depth;
  r.depth = 1;
  mutex_unlock_core(m, pc);
  bool spurious = false;
  i64 real_dl = dl;
  if (u64 v = choose(K_SPURIOUS, 5)) {
    i64 d = wall ? wall_now() : mono_now();
    static const i64 dly[] = {0, 1000, 50000, 3000000, 400000000};
    d += dly[v - 1];
    if (dl < 0 || d < dl) {
      dl = d;
      spurious = true;
    }
  }
  if (clk == CLOCK_REALTIME && dl >= 0)
    block(c, "condition wait", dl, true);
  else
    block(c, "condition wait", dl, false);
  auto it = cnd.find(c);
  if (it == cnd.end() || !it->second.live)
    violation("api-misuse", "condition variable destroyed while T%d waits on it", me);
  auto &wv = it->second.waiters;
  for (size_t i = 0; i < wv.size(); i++)
    if (wv[i] == me) {
      wv.erase(wv.begin() + i);
      break;
    }
  bool signalled = W.cur->wake_signal;
  W.cur->wake_signal = false;
  (void)real_dl;
  mutex_lock_core(m, pc, true, -1);
  mtx[m].depth = depth;
  if (signalled || spurious) return 0;
  return ETIMEDOUT;
}

static void cond_wake(pthread_cond_t *c, bool all) {
  CondRec &r = cnd[c];
  std::vector<int> el;
  for (int w : r.waiters)
    if (!W.f[w].wake_signal) el.push_back(w);
  if (el.empty()) return;
  if (all) {
    for (int w : el) {
      W.f[w].wake_signal = true;
      wake(&W.f[w]);
    }
    return;
  }
  size_t i = 0;
  if (el.size() > 1) i = (size_t)choose(K_WAKE, el.size() - 1);
  W.f[el[i]].wake_signal = true;
  wake(&W.f[el[i]]);
}

}  // namespace sim

using namespace sim;
#define PC __builtin_return_address(0)
#define ENTER(name)                                                                   \
  if (!W.active) harness_error("%s called outside a simulated run", name);            \
  STUB(name);                                                                         \
  point(P_SYNC, nullptr)

extern "C" {
// ------------------------------------------------------------------- threads
extern long g_sim_nproc;
struct SimAttr { u64 magic; u64 stack; int detach; };  // pthread_attr_t has 56 bytes
static const u64 AMAGIC = 0xA77A77A77A770001ull;
int sim_pthread_attr_init(pthread_attr_t *a) {
  ENTER("pthread_attr_init");
  SimAttr *s = (SimAttr *)a;
  s->magic = AMAGIC;
  s->stack = 0;
  s->detach = PTHREAD_CREATE_JOINABLE;
  return 0;
}
int sim_pthread_attr_destroy(pthread_attr_t *a) {
  ENTER("pthread_attr_destroy");
  ((SimAttr *)a)->magic = 0;
  return 0;
}
int sim_pthread_attr_setstacksize(pthread_attr_t *a, size_t n) {
  ENTER("pthread_attr_setstacksize");
  if (n < 16384) return EINVAL;
  ((SimAttr *)a)->stack = n;
  return 0;
}
int sim_pthread_attr_getstacksize(const pthread_attr_t *a, size_t *n) {
  ENTER("pthread_attr_getstacksize");
  *n = ((SimAttr *)a)->stack ? ((SimAttr *)a)->stack : 8u << 20;
  return 0;
}
int sim_pthread_attr_setdetachstate(pthread_attr_t *a, int d) {
  ENTER("pthread_attr_setdetachstate");
  ((SimAttr *)a)->detach = d;
  return 0;
}
int sim_pthread_attr_getdetachstate(const pthread_attr_t *a, int *d) {
  ENTER("pthread_attr_getdetachstate");
  *d = ((const SimAttr *)a)->detach;
  return 0;
}
// accepted and without effect on what is simulated
int sim_pthread_attr_setguardsize(pthread_attr_t *, size_t) { return 0; }
int sim_pthread_attr_setscope(pthread_attr_t *, int v) { return v == PTHREAD_SCOPE_SYSTEM ? 0 : ENOTSUP; }
int sim_pthread_attr_setinheritsched(pthread_attr_t *, int) { return 0; }
int sim_pthread_attr_setschedpolicy(pthread_attr_t *, int) { return 0; }
int sim_pthread_attr_setschedparam(pthread_attr_t *, const struct sched_param *) { return 0; }
int sim_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
  ENTER("pthread_create");
  const SimAttr *sa = (const SimAttr *)a;
  if (sa && sa->magic != AMAGIC) violation("api-misuse", "pthread_create with an uninitialised attribute");
  if (choose(K_THREADFAIL, 1)) return EAGAIN;
  int s = -1;
  for (int i = 0; i < NSLOTS; i++)
    if (slot_fiber[i] < 0) {
      s = i;
      break;
    }
  Fiber *f = s < 0 ? nullptr : new_fiber("sut-thread");
  if (!f) return EAGAIN;
  slot_fiber[s] = f->id;
  f->slot = s;
  f->pfn = fn;
  f->parg = arg;
  f->is_pthread = true;
  f->detached = sa && sa->detach == PTHREAD_CREATE_DETACHED;
  f->stack_size = sa ? sa->stack : 0;
  created++;
  check_addr(t, sizeof *t, true, PC);
  *t = slot_handle(s);
  start_fiber(f);
  log("pthread_create -> T%d", f->id);
  point(P_SYNC, nullptr);
  return 0;
}
u64 sim_thread_stack_request(int fiber) { return W.f[fiber].stack_size; }
int sim_pthread_join(pthread_t t, void **rv) {
  ENTER("pthread_join");
  int s = handle_slot(t);
  if (s < 0 || slot_fiber[s] < 0)
    violation("api-misuse", "pthread_join on a thread id that is no longer (or never was) joinable (pc %p)", PC);
  Fiber *f = &W.f[slot_fiber[s]];
  if (f->detached) violation("api-misuse", "pthread_join on a detached thread");
  if (f == W.cur) return EDEADLK;
  if (f->joined) violation("api-misuse", "two threads join the same thread");
  f->joined = true;
  while (f->st != F_DONE) block(f, "pthread_join", -1, false);
  vc_join(W.cur->vc, f->vc);
  slot_fiber[s] = -1;  // the id may be reused from here on
  if (rv) *rv = f->retval;
  return 0;
}
static int join_until(pthread_t t, void **rv, i64 deadline, const char *nm, void *pc) {
  int s = handle_slot(t);
  if (s < 0 || slot_fiber[s] < 0)
    violation("api-misuse", "%s on a thread id that is no longer (or never was) joinable (pc %p)", nm, pc);
  Fiber *f = &W.f[slot_fiber[s]];
  if (f->detached) violation("api-misuse", "%s on a detached thread", nm);
  if (f == W.cur) return EDEADLK;
  if (f->joined) violation("api-misuse", "two threads join the same thread");
  while (f->st != F_DONE) {
    if (deadline < 0) return EBUSY;
    if (block(f, nm, deadline, true) && f->st != F_DONE) return ETIMEDOUT;
  }
  f->joined = true;
  vc_join(W.cur->vc, f->vc);
  slot_fiber[s] = -1;
  if (rv) *rv = f->retval;
  return 0;
}
int sim_pthread_tryjoin_np(pthread_t t, void **rv) {
  ENTER("pthread_tryjoin_np");
  return join_until(t, rv, -1, "pthread_tryjoin_np", PC);
}
int sim_pthread_timedjoin_np(pthread_t t, void **rv, const struct timespec *ts) {
  ENTER("pthread_timedjoin_np");
  check_addr(ts, sizeof *ts, false, PC);
  return join_until(t, rv, std::max<i64>(0, ts_ns(ts)), "pthread_timedjoin_np", PC);
}
int sim_pthread_setcancelstate(int, int *o) { if (o) *o = PTHREAD_CANCEL_ENABLE; return 0; }
int sim_pthread_setcanceltype(int, int *o) { if (o) *o = PTHREAD_CANCEL_DEFERRED; return 0; }
void sim_pthread_testcancel(void) {}
int sim_pthread_detach(pthread_t t) {
  ENTER("pthread_detach");
  int s = handle_slot(t);
  if (s < 0 || slot_fiber[s] < 0) violation("api-misuse", "pthread_detach on an invalid thread id");
  Fiber *f = &W.f[slot_fiber[s]];
  if (f->detached) violation("api-misuse", "pthread_detach on a detached thread");
  f->detached = true;
  if (f->st == F_DONE) slot_fiber[s] = -1;
  return 0;
}
void sim_pthread_exit(void *v) {
  ENTER("pthread_exit");
  throw_thread_exit(v);
}
pthread_t sim_pthread_self(void) {
  ENTER("pthread_self");
  ensure_slot(W.cur);
  return slot_handle(W.cur->slot);
}
int sim_pthread_equal(pthread_t a, pthread_t b) { return a == b; }
int sim_pthread_setname_np(pthread_t t, const char *n) {
  ENTER("pthread_setname_np");
  check_addr(n, strlen(n) + 1, false, PC);
  int s = handle_slot(t);
  if (s < 0 || slot_fiber[s] < 0) violation("api-misuse", "pthread_setname_np on an invalid thread id");
  if (strlen(n) > 15) return ERANGE;
  if (choose(K_SETPRIO, 1)) return EACCES;
  snprintf(W.f[slot_fiber[s]].name, sizeof W.f[0].name, "%s", n);
  return 0;
}
int sim_pthread_getname_np(pthread_t t, char *b, size_t n) {
  ENTER("pthread_getname_np");
  int s = handle_slot(t);
  if (s < 0 || slot_fiber[s] < 0) violation("api-misuse", "pthread_getname_np on an invalid thread id");
  if (n < 16) return ERANGE;
  check_addr(b, 16, true, PC);
  snprintf(b, 16, "%s", W.f[slot_fiber[s]].name);
  return 0;
}
int sim_pthread_getschedparam(pthread_t t, int *pol, struct sched_param *p) {
  ENTER("pthread_getschedparam");
  int s = handle_slot(t);
  if (s < 0 || slot_fiber[s] < 0) violation("api-misuse", "pthread_getschedparam on an invalid thread id");
  *pol = SCHED_OTHER;
  p->sched_priority = 0;
  return 0;
}
int sim_pthread_setschedprio(pthread_t t, int) {
  ENTER("pthread_setschedprio");
  int s = handle_slot(t);
  if (s < 0 || slot_fiber[s] < 0) violation("api-misuse", "pthread_setschedprio on an invalid thread id");
  return choose(K_SETPRIO, 1) ? EPERM : 0;
}
int sim_pthread_setschedparam(pthread_t t, int, const struct sched_param *) {
  ENTER("pthread_setschedparam");
  int s = handle_slot(t);
  if (s < 0 || slot_fiber[s] < 0) violation("api-misuse", "pthread_setschedparam on an invalid thread id");
  return choose(K_SETPRIO, 1) ? EPERM : 0;
}
int sim_sched_yield(void) {
  ENTER("sched_yield");
  forced_yield();
  return 0;
}
int sim_sched_getaffinity(pid_t, size_t n, cpu_set_t *set) {
  ENTER("sysconf");
  if (choose(K_SYSCONF, 1)) {
    errno = EINVAL;
    return -1;
  }
  check_addr(set, n, true, PC);
  memset(set, 0, n);
  for (long i = 0; i < g_sim_nproc && (size_t)i < n * 8; i++) CPU_SET_S(i, n, set);
  return 0;
}
int sim_pthread_getaffinity_np(pthread_t, size_t n, cpu_set_t *set) { return sim_sched_getaffinity(0, n, set) ? EINVAL : 0; }
int sim_sched_getcpu(void) { ENTER("sysconf"); return 0; }
int sim_sched_get_priority_min(int) { return 1; }
int sim_sched_get_priority_max(int) { return 99; }

// -------------------------------------------------------------------- mutexes
int sim_pthread_mutexattr_init(pthread_mutexattr_t *a) { *(int *)a = PTHREAD_MUTEX_NORMAL; return 0; }
int sim_pthread_mutexattr_destroy(pthread_mutexattr_t *) { return 0; }
int sim_pthread_mutexattr_settype(pthread_mutexattr_t *a, int t) { *(int *)a = t; return 0; }
int sim_pthread_mutexattr_gettype(const pthread_mutexattr_t *a, int *t) { *t = *(const int *)a; return 0; }
int sim_pthread_mutexattr_setpshared(pthread_mutexattr_t *, int) { return 0; }
int sim_pthread_mutexattr_setprotocol(pthread_mutexattr_t *, int) { return 0; }
int sim_pthread_condattr_setpshared(pthread_condattr_t *, int) { return 0; }
int sim_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) {
  ENTER("pthread_mutex_init");
  check_addr(m, sizeof *m, true, PC);
  obj_touch(m, true, PC);
  auto it = mtx.find(m);
  if (it != mtx.end() && it->second.live && it->second.owner >= 0 && stamped(m, sizeof *m, MAGIC_M))
    violation("api-misuse", "pthread_mutex_init on a locked mutex");
  stamp(m, sizeof *m, MAGIC_M);
  MutexRec r;
  memset((void *)&r, 0, sizeof r);
  r.addr = m;
  r.type = a ? *(const int *)a : 0;
  r.owner = -1;
  r.live = true;
  mtx[m] = r;
  return 0;
}
int sim_pthread_mutex_destroy(pthread_mutex_t *m) {
  ENTER("pthread_mutex_destroy");
  MutexRec &r = get_mutex(m, "pthread_mutex_destroy", PC);
  if (r.owner >= 0) violation("api-misuse", "pthread_mutex_destroy on a locked mutex (owner T%d)", r.owner);
  for (int i = 0; i < W.nf; i++)
    if (W.f[i].st == F_BLOCKED && W.f[i].wobj == m)
      violation("api-misuse", "pthread_mutex_destroy while T%d waits for it", i);
  obj_touch(m, true, PC);
  r.live = false;
  stamp(m, sizeof *m, MAGIC_DEAD);
  return 0;
}
int sim_pthread_mutex_lock(pthread_mutex_t *m) {
  ENTER("pthread_mutex_lock");
  return mutex_lock_core(m, PC, false, -1);
}
int sim_pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts) {
  ENTER("pthread_mutex_timedlock");
  return mutex_lock_core(m, PC, false, std::max<i64>(0, ts_ns(ts)));
}
int sim_pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t k, const struct timespec *ts) {
  ENTER("pthread_mutex_clocklock");
  return mutex_lock_core(m, PC, false, std::max<i64>(0, ts_ns(ts)), k == CLOCK_REALTIME);
}
int sim_pthread_mutex_trylock(pthread_mutex_t *m) {
  ENTER("pthread_mutex_trylock");
  MutexRec &r = get_mutex(m, "pthread_mutex_trylock", PC);
  if (r.owner >= 0) {
    if (r.owner == W.cur->id && r.type == PTHREAD_MUTEX_RECURSIVE) {
      r.depth++;
      return 0;
    }
    return EBUSY;
  }
  return mutex_lock_core(m, PC, false, -1);
}
int sim_pthread_mutex_unlock(pthread_mutex_t *m) {
  ENTER("pthread_mutex_unlock");
  return mutex_unlock_core(m, PC);
}

// --------------------------------------------------------- condition variables
int sim_pthread_condattr_init(pthread_condattr_t *a) { *(int *)a = CLOCK_REALTIME; return 0; }
int sim_pthread_condattr_destroy(pthread_condattr_t *) { return 0; }
int sim_pthread_condattr_setclock(pthread_condattr_t *a, clockid_t c) {
  if (c != CLOCK_REALTIME && c != CLOCK_MONOTONIC) return EINVAL;
  *(int *)a = c;
  return 0;
}
int sim_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) {
  ENTER("pthread_cond_init");
  check_addr(c, sizeof *c, true, PC);
  obj_touch(c, true, PC);
  stamp(c, sizeof *c, MAGIC_C);
  CondRec r;
  r.addr = c;
  r.live = true;
  r.clk = a ? *(const int *)a : CLOCK_REALTIME;
  cnd[c] = r;
  return 0;
}
int sim_pthread_cond_destroy(pthread_cond_t *c) {
  ENTER("pthread_cond_destroy");
  CondRec &r = get_cond(c, "pthread_cond_destroy", PC);
  for (int w : r.waiters)
    if (!W.f[w].wake_signal) violation("api-misuse", "pthread_cond_destroy while T%d waits on it", w);
  obj_touch(c, true, PC);
  r.live = false;
  stamp(c, sizeof *c, MAGIC_DEAD);
  return 0;
}
int sim_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  ENTER("pthread_cond_wait");
  return cond_wait_core(c, m, (clockid_t)-1, nullptr, PC);
}
int sim_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
  ENTER("pthread_cond_timedwait");
  check_addr(ts, sizeof *ts, false, PC);
  return cond_wait_core(c, m, (clockid_t)-1, ts, PC);
}
int sim_pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *ts) {
  ENTER("pthread_cond_clockwait");
  return cond_wait_core(c, m, k, ts, PC);
}
int sim_pthread_cond_signal(pthread_cond_t *c) {
  ENTER("pthread_cond_signal");
  get_cond(c, "pthread_cond_signal", PC);
  cond_wake(c, false);
  return 0;
}
int sim_pthread_cond_broadcast(pthread_cond_t *c) {
  ENTER("pthread_cond_broadcast");
  get_cond(c, "pthread_cond_broadcast", PC);
  cond_wake(c, true);
  return 0;
}

// --------------------------------------------------- rwlock, spin, sem, once
int sim_pthread_rwlock_init(pthread_rwlock_t *l, const void *) { ENTER("pthread_rwlock"); rws[l] = RwRec(); memset((void *)&rws[l].vc, 0, sizeof(VC)); memset((void *)&rws[l].rvc, 0, sizeof(VC)); return 0; }
int sim_pthread_rwlock_destroy(pthread_rwlock_t *l) { ENTER("pthread_rwlock"); rws.erase(l); return 0; }
static RwRec &rw(pthread_rwlock_t *l) {
  auto it = rws.find(l);
  if (it == rws.end()) { rws[l] = RwRec(); memset((void *)&rws[l].vc, 0, sizeof(VC)); memset((void *)&rws[l].rvc, 0, sizeof(VC)); }
  return rws[l];
}
static void wake_all_on(const void *o) {
  for (int i = 0; i < W.nf; i++)
    if (W.f[i].st == F_BLOCKED && W.f[i].wobj == o) wake(&W.f[i]);
}
static int rw_take(pthread_rwlock_t *l, bool write, i64 dl, bool timed, bool wall) {
  auto busy = [&] { return rw(l).writer >= 0 || (write && rw(l).readers); };
  if (timed && dl < 0 && busy()) return EBUSY;
  if (rw(l).writer == W.cur->id) return EDEADLK;
  while (busy())
    if (block(l, write ? "rwlock wrlock" : "rwlock rdlock", dl, wall) && busy()) return ETIMEDOUT;
  if (write) rw(l).writer = W.cur->id;
  else rw(l).readers++;
  hb_acquire(rw(l).vc);
  if (write) hb_acquire(rw(l).rvc);
  return 0;
}
int sim_pthread_rwlock_rdlock(pthread_rwlock_t *l) { ENTER("pthread_rwlock"); return rw_take(l, false, -1, false, false); }
int sim_pthread_rwlock_wrlock(pthread_rwlock_t *l) { ENTER("pthread_rwlock"); return rw_take(l, true, -1, false, false); }
int sim_pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { ENTER("pthread_rwlock"); return rw_take(l, false, -1, true, false); }
int sim_pthread_rwlock_trywrlock(pthread_rwlock_t *l) { ENTER("pthread_rwlock"); return rw_take(l, true, -1, true, false); }
int sim_pthread_rwlock_timedrdlock(pthread_rwlock_t *l, const struct timespec *ts) {
  ENTER("pthread_rwlock");
  return rw_take(l, false, std::max<i64>(0, ts_ns(ts)), true, true);
}
int sim_pthread_rwlock_timedwrlock(pthread_rwlock_t *l, const struct timespec *ts) {
  ENTER("pthread_rwlock");
  return rw_take(l, true, std::max<i64>(0, ts_ns(ts)), true, true);
}
int sim_pthread_rwlock_unlock(pthread_rwlock_t *l) {
  ENTER("pthread_rwlock");
  RwRec &r = rw(l);
  if (r.writer == W.cur->id) {
    r.writer = -1;
    hb_release(r.vc);
  } else {
    r.readers--;
    hb_release(r.rvc);
  }
  wake_all_on(l);
  return 0;
}
int sim_pthread_barrier_init(pthread_barrier_t *b, const pthread_barrierattr_t *, unsigned n) {
  ENTER("pthread_barrier");
  if (!n) return EINVAL;
  BarRec r;
  memset((void *)&r, 0, sizeof r);
  r.need = n;
  bars[b] = r;
  return 0;
}
int sim_pthread_barrier_destroy(pthread_barrier_t *b) { ENTER("pthread_barrier"); bars.erase(b); return 0; }
int sim_pthread_barrier_wait(pthread_barrier_t *b) {
  ENTER("pthread_barrier");
  if (!bars.count(b)) violation("api-misuse", "barrier not initialised");
  u64 gen = bars[b].gen;
  hb_release(bars[b].vc);
  if (++bars[b].in == bars[b].need) {
    bars[b].in = 0;
    bars[b].gen++;
    hb_acquire(bars[b].vc);
    wake_all_on(b);
    return PTHREAD_BARRIER_SERIAL_THREAD;
  }
  while (bars[b].gen == gen) block(b, "barrier", -1, false);
  hb_acquire(bars[b].vc);
  return 0;
}
int sim_pthread_spin_init(pthread_spinlock_t *l, int) { ENTER("pthread_spin"); *(int *)l = 0; return 0; }
int sim_pthread_spin_destroy(pthread_spinlock_t *) { return 0; }
int sim_pthread_spin_lock(pthread_spinlock_t *l) {
  ENTER("pthread_spin");
  while (*(volatile int *)l) { point(P_ATOMIC, (void *)l); forced_yield(); }
  *(int *)l = 1;
  hb_acquire(*sync_clock((void *)l));
  return 0;
}
int sim_pthread_spin_trylock(pthread_spinlock_t *l) {
  ENTER("pthread_spin");
  if (*(volatile int *)l) return EBUSY;
  *(int *)l = 1;
  hb_acquire(*sync_clock((void *)l));
  return 0;
}
int sim_pthread_spin_unlock(pthread_spinlock_t *l) {
  ENTER("pthread_spin");
  *(int *)l = 0;
  hb_release(*sync_clock((void *)l));
  return 0;
}
static SemRec &sm(sem_t *s) { auto it = sems.find(s); if (it == sems.end()) violation("api-misuse", "semaphore not initialised"); return it->second; }
int sim_sem_init(sem_t *s, int, unsigned v) { ENTER("sem"); SemRec r; r.v = v; memset((void *)&r.vc, 0, sizeof(VC)); sems[s] = r; return 0; }
int sim_sem_destroy(sem_t *s) { ENTER("sem"); sems.erase(s); return 0; }
int sim_sem_post(sem_t *s) { ENTER("sem"); SemRec &r = sm(s); r.v++; hb_release(r.vc); wake_all_on(s); return 0; }
int sim_sem_wait(sem_t *s) {
  ENTER("sem");
  if (sm(s).v == 0 && choose(K_EINTR, 1)) { errno = EINTR; return -1; }
  while (sm(s).v == 0) block(s, "sem_wait", -1, false);
  sm(s).v--;
  hb_acquire(sm(s).vc);
  return 0;
}
int sim_sem_trywait(sem_t *s) {
  ENTER("sem");
  if (!sm(s).v) { errno = EAGAIN; return -1; }
  sm(s).v--;
  hb_acquire(sm(s).vc);
  return 0;
}
static int sem_tw(sem_t *s, const struct timespec *ts, bool wall) {
  if (sm(s).v == 0 && (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000)) { errno = EINVAL; return -1; }
  if (sm(s).v == 0 && choose(K_EINTR, 1)) { errno = EINTR; return -1; }
  while (sm(s).v == 0)
    if (block(s, "sem_timedwait", ts_ns(ts), wall) && sm(s).v == 0) { errno = ETIMEDOUT; return -1; }
  sm(s).v--;
  hb_acquire(sm(s).vc);
  return 0;
}
int sim_sem_timedwait(sem_t *s, const struct timespec *ts) { ENTER("sem"); return sem_tw(s, ts, true); }
int sim_sem_clockwait(sem_t *s, clockid_t k, const struct timespec *ts) { ENTER("sem"); return sem_tw(s, ts, k == CLOCK_REALTIME); }
int sim_sem_getvalue(sem_t *s, int *v) { ENTER("sem"); *v = (int)sm(s).v; return 0; }
static OnceRec &once_of(const void *o) {
  auto it = onces.find(o);
  if (it == onces.end()) { OnceRec r; memset((void *)&r, 0, sizeof r); onces[o] = r; }
  return onces[o];
}
int sim_pthread_once(pthread_once_t *o, void (*fn)(void)) {
  ENTER("pthread_once");
  while (once_of(o).st == 1) block(o, "pthread_once", -1, false);
  if (once_of(o).st == 2) { hb_acquire(once_of(o).vc); return 0; }
  once_of(o).st = 1;
  fn();
  once_of(o).st = 2;
  hb_release(once_of(o).vc);
  wake_all_on(o);
  return 0;
}
// static-local guards (one-time initialisation): guard byte 0 = done
int sim___cxa_guard_acquire(u64 *g) {
  if (!W.active) {
    if (*(char *)g) return 0;
    return 1;
  }
  STUB("__cxa_guard");
  point(P_SYNC, g);
  while (!*(char *)g && once_of(g).st == 1) block(g, "static-local initialisation", -1, false);
  if (*(char *)g) { hb_acquire(once_of(g).vc); return 0; }
  once_of(g).st = 1;
  return 1;
}
void sim___cxa_guard_release(u64 *g) {
  *(char *)g = 1;
  if (!W.active) return;
  point(P_SYNC, g);
  once_of(g).st = 2;
  hb_release(once_of(g).vc);
  // instrumented code checks the guard byte with an acquire load before calling
  vc_join(*sync_clock(g), once_of(g).vc);
  wake_all_on(g);
}
void sim___cxa_guard_abort(u64 *g) {
  if (!W.active) return;
  once_of(g).st = 0;
  wake_all_on(g);
}
int sim___cxa_thread_atexit(void (*)(void *), void *, void *) { return 0; }
int sim___cxa_atexit(void (*)(void *), void *, void *) { return 0; }

// ---------------------------------------------------------------------- clocks
static int sleep_core(i64 dl, bool wall, i64 total, struct timespec *rem) {
  i64 start = W.now;
  if (u64 v = choose(K_EINTR, 20)) {
    // interrupted part-way: 1/17 .. 16/17 of the requested time, or almost at once
    static const i64 soon[] = {0, 1, 1000, 1000000};
    i64 part = v > 16 ? std::min(total, soon[v - 17]) : (i64)((__int128)total * v / 17);
    block(W.cur, "sleep", start + part, false);
    i64 left = total - (W.now - start);
    if (left > 0) {
      if (rem) {
        rem->tv_sec = left / 1000000000;
        rem->tv_nsec = left % 1000000000;
      }
      errno = EINTR;
      return EINTR;
    }
    return 0;
  }
  if (u64 v = choose(K_LATE, 6)) {
    i64 d = 1000000ll << (2 * v);
    dl += d;
    W.stall_total += d;
  }
  block(W.cur, "sleep", dl, wall);
  return 0;
}
int sim_nanosleep(const struct timespec *req, struct timespec *rem) {
  ENTER("nanosleep");
  check_addr(req, sizeof *req, false, PC);
  if (req->tv_sec < 0 || req->tv_nsec < 0 || req->tv_nsec > 999999999) {
    errno = EINVAL;
    return -1;
  }
  i64 t = ts_ns(req);
  return sleep_core(W.now + t, false, t, rem) ? -1 : 0;
}
int sim_clock_nanosleep(clockid_t c, int flags, const struct timespec *req, struct timespec *rem) {
  ENTER("clock_nanosleep");
  if (req->tv_sec < 0 || req->tv_nsec < 0 || req->tv_nsec > 999999999) return EINVAL;
  i64 t = ts_ns(req);
  if (flags & TIMER_ABSTIME) {
    i64 left = t - clock_ns(c);
    if (left <= 0) return 0;
    return sleep_core(t, c == CLOCK_REALTIME, left, nullptr);
  }
  return sleep_core(W.now + t, false, t, rem);
}
int sim_usleep(unsigned us) {
  ENTER("usleep");
  return sleep_core(W.now + (i64)us * 1000, false, (i64)us * 1000, nullptr) ? -1 : 0;
}
unsigned sim_sleep(unsigned s) {
  ENTER("sleep");
  i64 st = W.now;
  sleep_core(W.now + (i64)s * 1000000000, false, (i64)s * 1000000000, nullptr);
  i64 left = (i64)s * 1000000000 - (W.now - st);
  return left > 0 ? (unsigned)((left + 500000000) / 1000000000) : 0;
}
time_t sim_time(time_t *o) {
  ENTER("time");
  // time() is served from the coarse tick and may lag the precise clock by up to 4 ms
  if (!timelag_set) {
    timelag_set = true;
    timelag_ms = (int)choose(K_TIMELAG, 4);
  }
  time_t t = (time_t)((wall_now() - (i64)timelag_ms * 1000000) / 1000000000);
  if (o) *o = t;
  return t;
}
int sim_gettimeofday(struct timeval *tv, void *) {
  ENTER("gettimeofday");
  check_addr(tv, sizeof *tv, true, PC);
  until_tick(wall_now());
  i64 t = wall_now();
  tv->tv_sec = t / 1000000000;
  tv->tv_usec = t % 1000000000 / 1000;
  return 0;
}
int sim_clock_gettime(clockid_t c, struct timespec *ts) {
  ENTER("clock_gettime");
  check_addr(ts, sizeof *ts, true, PC);
  i64 t = clock_ns(c);
  ts->tv_sec = t / 1000000000;
  ts->tv_nsec = t % 1000000000;
  return 0;
}
int sim_clock_getres(clockid_t, struct timespec *ts) {
  ENTER("clock_gettime");
  if (ts) {
    check_addr(ts, sizeof *ts, true, PC);
    ts->tv_sec = 0;
    ts->tv_nsec = 1;
  }
  return 0;
}
int sim_timespec_get(struct timespec *ts, int base) {
  ENTER("clock_gettime");
  check_addr(ts, sizeof *ts, true, PC);
  i64 t = clock_ns(CLOCK_REALTIME);
  ts->tv_sec = t / 1000000000;
  ts->tv_nsec = t % 1000000000;
  return base;
}
i64 sim__ZNSt6chrono3_V212steady_clock3nowEv(void) { ENTER("clock_gettime"); return clock_ns(CLOCK_MONOTONIC); }
i64 sim__ZNSt6chrono3_V212system_clock3nowEv(void) { ENTER("clock_gettime"); return clock_ns(CLOCK_REALTIME); }

// ----------------------------------------------------------------------- TLS
int sim_pthread_key_create(pthread_key_t *k, void (*d)(void *)) {
  ENTER("pthread_key_create");
  if (u64 v = choose(K_TLSFAIL, 2)) return v == 1 ? EAGAIN : ENOMEM;
  for (int i = 0; i < NKEYS; i++)
    if (!keys[i].live) {
      keys[i].live = true;
      keys[i].gen = ++keygen;
      if (i >= nkeys) nkeys = i + 1;
      keys[i].dtor = d;
      *k = i;
      return 0;
    }
  return EAGAIN;
}
bool sim_keys_exhausted() {
  for (int i = 0; i < NKEYS; i++)
    if (!keys[i].live) return false;
  return true;
}
int sim_pthread_key_delete(pthread_key_t k) {
  ENTER("pthread_key_delete");
  if (k >= NKEYS || !keys[k].live) violation("api-misuse", "pthread_key_delete on key %u, which is not live", k);
  keys[k].live = false;
  return 0;
}
int sim_pthread_setspecific(pthread_key_t k, const void *v) {
  ENTER("pthread_setspecific");
  if (k >= NKEYS || !keys[k].live) violation("api-misuse", "pthread_setspecific on key %u, which is not live", k);
  tls[W.cur->id][k] = {(void *)v, keys[k].gen};
  return 0;
}
void *sim_pthread_getspecific(pthread_key_t k) {
  ENTER("pthread_getspecific");
  if (k >= NKEYS || !keys[k].live) violation("api-misuse", "pthread_getspecific on key %u, which is not live", k);
  return tls[W.cur->id][k].gen == keys[k].gen ? tls[W.cur->id][k].v : nullptr;
}

// ---------------------------------------------------------------------- misc
long g_sim_nproc = 8;
void sim_set_nproc(long n) { g_sim_nproc = n; }
long sim_sysconf(int name) {
  ENTER("sysconf");
  if (choose(K_SYSCONF, 1)) {
    errno = EINVAL;
    return -1;
  }
  if (name == _SC_NPROCESSORS_ONLN) return g_sim_nproc;
  if (name == _SC_NPROCESSORS_CONF) return g_sim_nproc + 2;
  if (name == _SC_PAGESIZE) return 4096;
  return -1;
}
int sim_get_nprocs(void) {
  ENTER("sysconf");
  return (int)g_sim_nproc;
}
int sim_get_nprocs_conf(void) {
  ENTER("sysconf");
  return (int)g_sim_nproc + 2;
}
unsigned sim__ZNSt6thread20hardware_concurrencyEv(void) {
  ENTER("sysconf");
  return choose(K_SYSCONF, 1) ? 0 : (unsigned)g_sim_nproc;
}
void sim___assert_fail(const char *e, const char *file, unsigned line, const char *fn) {
  const char *b = strrchr(file, '/');
  violation("assertion", "assertion `%s' failed at %s:%u", e, b ? b + 1 : file, line);
}
void sim_abort(void) { violation("abort", "abort() called"); }
void sim_exit(int c) { violation("abort", "exit(%d) called", c); }
void sim__ZSt9terminatev(void) { violation("terminate", "std::terminate called"); }
void sim___cxa_pure_virtual(void) { violation("abort", "pure virtual call"); }
void sim___stack_chk_fail(void) { violation("stack-smash", "stack protector tripped"); }

// stdio output: captured; may fail (K_IO)

static size_t io_part;  // characters written by an output that failed
static int io_write(const char *s, size_t n) {
  io_part = n;
  if (u64 v = choose(K_IO, 2)) {
    io_part = v == 2 && n > 1 ? n / 2 : 0;
    io_out->append(s, io_part);  // short write, then the error
    io_err = true;
    errno = EIO;
    return -1;
  }
  io_out->append(s, n);
  return (int)n;
}
int sim_printf(const char *fmt, ...) {
  if (!W.active) return 0;
  STUB("printf");
  point(P_SYNC, nullptr);
  va_list ap;
  va_start(ap, fmt);
  if (!strcmp(fmt, "%s")) {
    const char *s = va_arg(ap, const char *);
    size_t n = 0;
    for (;; n++) {
      check_addr(s + n, 1, false, PC);
      if (!s[n]) break;
    }
    va_end(ap);
    return io_write(s, n);
  }
  char b[4096];
  int n = vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  return io_write(b, n < (int)sizeof b ? n : sizeof b - 1);
}
int sim_puts(const char *s) { if (!W.active) return 0; STUB("printf"); point(P_SYNC, nullptr); int r = io_write(s, strlen(s)); if (r < 0) return r; return io_write("\n", 1); }
int sim_putchar(int c) { if (!W.active) return 0; STUB("printf"); point(P_SYNC, nullptr); char b = (char)c; return io_write(&b, 1) < 0 ? -1 : c; }
size_t sim_fwrite(const void *p, size_t a, size_t b, FILE *) {
  if (!W.active) return b;
  STUB("printf");
  point(P_SYNC, nullptr);
  if (!a || !b) return 0;
  check_addr(p, a * b, false, PC);
  int r = io_write((const char *)p, a * b);
  return r < 0 ? io_part / a : b;
}
size_t sim_fwrite_unlocked(const void *, size_t, size_t, FILE *) __attribute__((alias("sim_fwrite")));
ssize_t sim_write(int, const void *p, size_t n) {
  if (!W.active) return n;
  STUB("printf");
  point(P_SYNC, nullptr);
  check_addr(p, n, false, PC);
  int r = io_write((const char *)p, n);
  return r < 0 && io_part ? (ssize_t)io_part : r;
}
ssize_t sim_writev(int, const struct iovec *v, int n) {
  if (!W.active) return 0;
  STUB("printf");
  point(P_SYNC, nullptr);
  std::string b;
  for (int i = 0; i < n; i++) {
    check_addr(v[i].iov_base, v[i].iov_len, false, PC);
    b.append((const char *)v[i].iov_base, v[i].iov_len);
  }
  int r = io_write(b.data(), b.size());
  return r < 0 && io_part ? (ssize_t)io_part : r;
}
int sim_ferror(FILE *) { return io_err; }
void sim_clearerr(FILE *) { io_err = false; }
int sim_fileno(FILE *) { return 1; }
void sim_flockfile(FILE *) {}
void sim_funlockfile(FILE *) {}
int sim_ferror_unlocked(FILE *) { return io_err; }
int sim_setvbuf(FILE *, char *, int, size_t) { return 0; }
int sim_fputs(const char *s, FILE *) { if (!W.active) return 0; STUB("printf"); point(P_SYNC, nullptr); return io_write(s, strlen(s)); }
int sim_fputc(int c, FILE *) { return sim_putchar(c); }
int sim_putc(int c, FILE *) { return sim_putchar(c); }
int sim_vprintf(const char *fmt, va_list ap) {
  if (!W.active) return 0;
  STUB("printf");
  point(P_SYNC, nullptr);
  char b[65536];
  int n = vsnprintf(b, sizeof b, fmt, ap);
  return io_write(b, n < (int)sizeof b ? n : sizeof b - 1);
}
int sim_fprintf(FILE *, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = sim_vprintf(fmt, ap); va_end(ap); return r; }
int sim_vfprintf(FILE *, const char *fmt, va_list ap) { return sim_vprintf(fmt, ap); }
int sim_dprintf(int, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = sim_vprintf(fmt, ap); va_end(ap); return r; }
int sim_putchar_unlocked(int c) { return sim_putchar(c); }
int sim_putc_unlocked(int c, FILE *) { return sim_putchar(c); }
int sim_fputc_unlocked(int c, FILE *) { return sim_putchar(c); }
int sim_fputs_unlocked(const char *t, FILE *f) { return sim_fputs(t, f); }
int sim_fflush_unlocked(FILE *) { return 0; }
int sim_fflush(FILE *) { return 0; }
int sim_sprintf(char *d, const char *fmt, ...) { char b[4096]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap); if (W.active) check_addr(d, n + 1, true, PC); memcpy(d, b, n + 1); return n; }
int sim_snprintf(char *d, size_t m, const char *fmt, ...) { va_list ap; va_start(ap, fmt); if (W.active && m) check_addr(d, 1, true, PC); int n = vsnprintf(d, m, fmt, ap); va_end(ap); return n; }
}
namespace sim {
const std::string &io_text() { return *io_out; }
}
