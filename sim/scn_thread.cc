// Scenarios for the thread layer (src/libs_thread.h through src/nanothread.cc).
#include "libs_thread.h"

#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>

#include <algorithm>
#include <set>
#include <string>
#include <vector>

#include "lin.h"
#include "sim.h"

using namespace sim;
extern "C" {
void drv_write(long *p, long v);
long drv_read(long *p);
void drv_incr(long *p);
u64 sim_thread_stack_request(int fiber);
void sim_set_nproc(long n);
bool sim_keys_exhausted();
int drv_hw_concurrency();
int drv_cppthread_inert();
}

static const i64 MS = 1000000;
static const i64 SLACK = 100 * MS;  // generous: simulated code costs nanoseconds

static std::string fmt(const char *f, ...) {
  char b[256];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  return b;
}

// Where a run's objects of one kind lie: each in a block of its own, side by side, or spread
// over one block at random or at power-of-two distances.
struct Spots {
  std::vector<char *> at, own;
  Spots(int n, size_t size, i64 env) {
    Rng r((u64)env * 2654435761u + 99);
    size = (size + 7) / 8 * 8;
    int mode = (int)r.below(4);
    if (mode == 0) {
      for (int i = 0; i < n; i++) own.push_back((char *)heap_alloc(size));
      at = own;
      return;
    }
    size_t step = mode == 3 ? 1u << r.below(5) : 1;
    own.push_back((char *)heap_alloc(mode == 2 ? 48 * size : ((n - 1) * step + 1) * size));
    std::vector<bool> used(48);
    for (int i = 0; i < n; i++) {
      size_t k = (size_t)i * step;
      if (mode == 2)
        do k = r.below(48);
        while (used[k]);
      if (mode == 2) used[k] = true;
      at.push_back(own[0] + k * size);
    }
  }
  void free() {
    for (char *p : own) heap_free(p);
  }
};

// ============================================================ P01: atomics
// cfg: [0]=env, [1]=clients, [2]=kind (0 int, 1 ptr), [3]=initial value, [4]=objects
enum { A_LOAD, A_STORE, A_INC, A_DEC, A_ADD, A_SUB, A_SWAP, A_CAS, A_N };
static const char *const aname[] = {"load", "store", "inc", "dec", "add", "sub", "swap", "cas"};

static void gen_atomic(Rng &r, Plan &p) {
  bool wide = r.below(8) == 0;
  int n = wide ? 3 + (int)r.below(5) : 2 + (int)r.below(3);
  int ptr = (int)r.below(3) == 0;
  static const i64 inits[] = {0, 1, -1, INT_MAX, INT_MIN, 7, INT_MAX - 1, INT_MIN + 1, 65535};
  p.cfg = {(i64)r.next() & 0xffff, n, ptr, r.pick(inits), 1 + (i64)r.below(2)};
  int total = wide ? 8 + (int)r.below(26) : 4 + (int)r.below(11);
  u32 swarm = (u32)r.next() | 1u << r.below(A_N);
  for (int i = 0; i < total; i++) {
    Op o;
    o.thr = 1 + (int)r.below(n);
    for (int tries = 0; tries < 40; tries++) {
      o.code = (int)r.below(A_N);
      if (ptr && o.code >= A_INC && o.code <= A_SUB) continue;
      if (swarm >> o.code & 1) break;
    }
    if (ptr && o.code >= A_INC && o.code <= A_SUB) o.code = A_SWAP;
    static const i64 vals[] = {0, 1, 2, 3, -1, -2, INT_MAX, INT_MIN, 100000, 7};
    o.a = r.pick(vals);
    o.b = r.pick(vals);
    if (ptr) {
      // full-width values: a truncated pointer must be visible
      o.a = o.a == 0 ? 0 : (i64)(0x1122334400000000ull + (u32)o.a);
      o.b = o.b == 0 ? 0 : (i64)(0x1122334400000000ull + (u32)o.b);
    }
    o.c = (i64)r.below((u64)p.cfg[4]);
    p.ops.push_back(o);
  }
}
static std::string show_atomic(const Plan &p, const Op &o) {
  return fmt("%s_%s(x%lld%s)", p.cfg[2] ? "ptr" : "int", aname[o.code], (long long)o.c,
             o.code == A_LOAD || o.code == A_INC || o.code == A_DEC ? ""
             : o.code == A_CAS ? fmt(", %lld, %lld", (long long)o.a, (long long)o.b).c_str()
                               : fmt(", %lld", (long long)o.a).c_str());
}

struct AtomicCtx {
  const Plan *p;
  std::vector<char *> mem;
  std::vector<HOp> hist[2];
};
static i64 do_atomic(char *obj, bool ptr, const Op &o) {
  if (ptr) {
    thread_atomic_ptr_t *a = (thread_atomic_ptr_t *)obj;
    switch (o.code) {
      case A_LOAD: return (i64)thread_atomic_ptr_load(a);
      case A_STORE: thread_atomic_ptr_store(a, (void *)o.a); return 0;
      case A_SWAP: return (i64)thread_atomic_ptr_swap(a, (void *)o.a);
      default: return (i64)thread_atomic_ptr_compare_and_swap(a, (void *)o.a, (void *)o.b);
    }
  }
  thread_atomic_int_t *a = (thread_atomic_int_t *)obj;
  switch (o.code) {
    case A_LOAD: return thread_atomic_int_load(a);
    case A_STORE: thread_atomic_int_store(a, (int)o.a); return 0;
    case A_INC: return thread_atomic_int_inc(a);
    case A_DEC: return thread_atomic_int_dec(a);
    case A_ADD: return thread_atomic_int_add(a, (int)o.a);
    case A_SUB: return thread_atomic_int_sub(a, (int)o.a);
    case A_SWAP: return thread_atomic_int_swap(a, (int)o.a);
    default: return thread_atomic_int_compare_and_swap(a, (int)o.a, (int)o.b);
  }
}
static bool atomic_model(i64 &st, const HOp &h, bool ptr) {
  i64 old = st;
  auto w = [&](i64 v) { st = ptr ? v : (i64)(int)(u32)(u64)v; };
  switch (h.kind) {
    case A_LOAD: return h.r == old || !h.done();
    case A_STORE: w(h.a); return true;
    case A_INC: w(old + 1); break;
    case A_DEC: w(old - 1); break;
    case A_ADD: w(old + (int)h.a); break;
    case A_SUB: w(old - (int)h.a); break;
    case A_SWAP: w(h.a); break;
    case A_CAS:
      if (old == (ptr ? h.a : (i64)(int)h.a)) w(h.b);
      break;
  }
  return h.r == old;
}
struct Cl { void *ctx; int thr; };

static void atomic_client(void *v) {
  Cl *c = (Cl *)v;
  AtomicCtx *x = (AtomicCtx *)c->ctx;
  bool ptr = x->p->cfg[2];
  for (const Op &o : x->p->ops) {
    if (o.thr != c->thr) continue;
    size_t idx = x->hist[o.c].size();
    HOp h;
    h.thr = c->thr;
    h.kind = o.code;
    h.a = o.a;
    h.b = o.b;
    h.inv = seq();
    x->hist[o.c].push_back(h);
    i64 r = do_atomic(x->mem[(size_t)o.c], ptr, o);
    x->hist[o.c][idx].r = r;
    x->hist[o.c][idx].res = seq();
    log("%s -> %lld", show_atomic(*x->p, o).c_str(), (long long)r);
    hash_in((u64)r);
  }
}
static void run_atomic(const Plan &p) {
  AtomicCtx x;
  x.p = &p;
  bool ptr = p.cfg[2];
  int nobj = (int)p.cfg[4];
  size_t osz = ptr ? sizeof(thread_atomic_ptr_t) : sizeof(thread_atomic_int_t);
  Spots sp(nobj, osz, p.cfg[0]);
  x.mem = sp.at;
  i64 init = ptr ? (p.cfg[3] == 0 ? 0 : (i64)(0x5566778800000000ull + (u32)p.cfg[3])) : p.cfg[3];
  for (int i = 0; i < nobj; i++) {
    Op o;
    o.code = A_STORE;
    o.a = init;
    do_atomic(x.mem[i], ptr, o);
  }
  int n = (int)p.cfg[1];
  Cl cl[8];
  int ids[8];
  for (int t = 1; t <= n; t++) {
    cl[t] = {&x, t};
    ids[t] = spawn(atomic_client, &cl[t], fmt("client%d", t).c_str());
  }
  for (int t = 1; t <= n; t++) join(ids[t]);
  bool conc = false;
  for (int i = 0; i < nobj; i++) {
    HOp h;
    h.kind = A_LOAD;
    h.inv = seq();
    Op o;
    o.code = A_LOAD;
    h.r = do_atomic(x.mem[i], ptr, o);
    h.res = seq();
    x.hist[i].push_back(h);
    for (auto &a : x.hist[i])
      for (auto &b : x.hist[i])
        if (a.thr != b.thr && a.inv < b.res && b.inv < a.res) conc = true;
    if (!linearizable(x.hist[i], init, [&](i64 &s, const HOp &q) { return atomic_model(s, q, ptr); })) {
      std::string d;
      for (auto &q : x.hist[i])
        d += fmt("T%d %s(%lld,%lld)=%lld[%llu,%llu]; ", q.thr, aname[q.kind], (long long)q.a, (long long)q.b,
                 (long long)q.r, (unsigned long long)q.inv, (unsigned long long)q.res);
      violation("atomic-not-linearizable", "initial %lld: %s", (long long)init, d.substr(0, 800).c_str());
    }
  }
  if (conc) SIM_PROBE("atomic: operations overlapped");
  note_trivial(p.ops.empty());
  sp.free();
}
static Register r_atomic({"atomic_lin", "P01", "concurrent clients on shared atomic ints/pointers; linearizability",
                          bit(K_STALE), 20000, gen_atomic, run_atomic, show_atomic});

// long histories: every add is counted once, and tickets taken with one operation are all different
// cfg: env, clients, operations per client, initial value, which operation
struct LongCtx {
  const Plan *p;
  thread_atomic_int_t *a, *lock;
  std::vector<int> got[8];
  long *plain;
};
static void gen_atlong(Rng &r, Plan &p) {
  static const i64 inits[] = {0, -1, INT_MAX - 300, INT_MIN, 65000, -40000};
  p.cfg = {(i64)r.next() & 0xffff, 2 + (i64)r.below(4), 20 + (i64)r.below(1ull << (5 + r.below(8))), r.pick(inits), (i64)r.below(6)};
}
static void atlong_client(void *v) {
  Cl *c = (Cl *)v;
  LongCtx *x = (LongCtx *)c->ctx;
  for (i64 i = 0; i < x->p->cfg[2]; i++) {
    int o = 0;
    switch (x->p->cfg[4]) {
      case 0: o = thread_atomic_int_inc(x->a); break;
      case 1: o = thread_atomic_int_dec(x->a); break;
      case 2: o = thread_atomic_int_add(x->a, 3); break;
      case 3: o = thread_atomic_int_sub(x->a, 5); break;
      case 4:  // a loop around compare and swap
        do o = thread_atomic_int_load(x->a);
        while (thread_atomic_int_compare_and_swap(x->a, o, (int)((u32)o + 7)) != o);
        break;
      default:  // a lock made of swap and store
        while (thread_atomic_int_swap(x->lock, 1)) yield_point();
        drv_incr(x->plain);
        o = thread_atomic_int_load(x->a);
        thread_atomic_int_store(x->a, (int)((u32)o + 1));
        thread_atomic_int_store(x->lock, 0);
    }
    x->got[c->thr].push_back(o);
  }
}
static void run_atlong(const Plan &p) {
  LongCtx x;
  x.p = &p;
  Spots sp(2, sizeof(thread_atomic_int_t), p.cfg[0]);
  x.a = (thread_atomic_int_t *)sp.at[0];
  x.lock = (thread_atomic_int_t *)sp.at[1];
  x.plain = (long *)heap_alloc(sizeof(long));
  drv_write(x.plain, 0);
  thread_atomic_int_store(x.a, (int)p.cfg[3]);
  thread_atomic_int_store(x.lock, 0);
  static const int by[] = {1, -1, 3, -5, 7, 1};
  int n = (int)p.cfg[1], ids[8];
  Cl cl[8];
  for (int t = 1; t <= n; t++) {
    cl[t] = {&x, t};
    ids[t] = spawn(atlong_client, &cl[t], fmt("client%d", t).c_str());
  }
  std::vector<int> all;
  for (int t = 1; t <= n; t++) join(ids[t]);
  for (int t = 1; t <= n; t++) all.insert(all.end(), x.got[t].begin(), x.got[t].end());
  u32 step = (u32)by[p.cfg[4]], init = (u32)p.cfg[3], total = (u32)all.size();
  int end = thread_atomic_int_load(x.a);
  if (end != (int)(init + step * total)) violation("atomic-lost-update", "%u operations of %d on %d end in %d", total, (int)step, (int)init, end);
  std::vector<int> want;
  for (u32 i = 0; i < total; i++) want.push_back((int)(init + step * i));
  std::sort(all.begin(), all.end());
  std::sort(want.begin(), want.end());
  for (u32 i = 0; i < total; i++)
    if (all[i] != want[i]) violation("atomic-ticket", "the values before %u operations of %d on %d are not all different: %d where %d belongs", total, (int)step, (int)init, all[i], want[i]);
  if (p.cfg[4] == 5 && drv_read(x.plain) != (long)total) violation("atomic-lock", "%u increments under a lock of swap and store give %ld", total, drv_read(x.plain));
  heap_free(x.plain);
  sp.free();
}
static Register r_atlong({"atomic_long", "P01", "thousands of concurrent operations of one kind: nothing lost, every value before is different; a lock made of swap and store",
                          bit(K_STALE), 6000000, gen_atlong, run_atlong, [](const Plan &, const Op &) { return std::string(); }});

// publication: a value published through an atomic carries earlier plain writes
// cfg: env, int/ptr, publish op, consume op, rounds
static void gen_publish(Rng &r, Plan &p) {
  p.cfg = {(i64)r.next() & 0xffff, (i64)r.below(2), (i64)r.below(5), (i64)r.below(3)};
  int n = 1 + (int)r.below(4);
  for (int i = 0; i < n; i++) {
    Op o;
    o.thr = 1;
    o.code = (int)r.below(5);
    o.a = (i64)r.below(3);
    p.ops.push_back(o);
  }
}
struct PubCtx {
  const Plan *p;
  char *obj, *ack;
  long *data;
};
static void pub_set(PubCtx *x, char *obj, int how, i64 from, i64 to) {
  bool ptr = x->p->cfg[1];
  Op o;
  if (ptr) {
    o.code = how == 0 || how == 3 ? A_STORE : how == 1 || how == 4 ? A_SWAP : A_CAS;
    o.a = o.code == A_CAS ? from : to;
    o.b = to;
  } else {
    switch (how) {
      case 0: o.code = A_STORE; o.a = to; break;
      case 1: o.code = A_INC; break;
      case 2: o.code = A_ADD; o.a = to - from; break;
      case 3: o.code = A_SWAP; o.a = to; break;
      default: o.code = A_CAS; o.a = from; o.b = to; break;
    }
  }
  do_atomic(obj, ptr, o);
}
static i64 pub_get(PubCtx *x, char *obj, int how, i64 want) {
  bool ptr = x->p->cfg[1];
  Op o;
  o.code = A_LOAD;
  if (how == 1) {
    o.code = A_CAS;
    o.a = want;
    o.b = want;
  } else if (how == 2 && !ptr) {
    o.code = A_ADD;
    o.a = 0;
  }
  return do_atomic(obj, ptr, o);
}
static void pub_writer(void *v) {
  PubCtx *x = (PubCtx *)v;
  i64 i = 0;
  for (auto &o : x->p->ops) {
    // wait until the reader acknowledged the previous round
    while (pub_get(x, x->ack, (int)o.a, i) != i) thread_yield();
    drv_write(x->data, 100 + i);
    pub_set(x, x->obj, o.code, i, i + 1);
    i++;
  }
}
static void pub_reader(void *v) {
  PubCtx *x = (PubCtx *)v;
  i64 i = 0;
  for (auto &o : x->p->ops) {
    while (pub_get(x, x->obj, (int)o.a, i + 1) != i + 1) thread_yield();
    long d = drv_read(x->data);
    if (d != 100 + i) violation("publish-stale", "round %lld: read %ld, expected %lld", (long long)i, d, (long long)(100 + i));
    pub_set(x, x->ack, o.code, i, i + 1);
    i++;
    SIM_PROBE("atomic: value published and consumed");
  }
}
static void run_publish(const Plan &p) {
  PubCtx x;
  x.p = &p;
  x.obj = (char *)heap_alloc(16);
  x.ack = (char *)heap_alloc(16);
  x.data = (long *)heap_alloc(8);
  Op z;
  z.code = A_STORE;
  do_atomic(x.obj, p.cfg[1], z);
  do_atomic(x.ack, p.cfg[1], z);
  int a = spawn(pub_writer, &x, "writer"), b = spawn(pub_reader, &x, "reader");
  join(a);
  join(b);
  note_trivial(p.ops.empty());
}
static std::string show_publish(const Plan &, const Op &o) {
  static const char *const n[] = {"store", "inc", "add", "swap", "cas"};
  static const char *const g[] = {"load", "cas", "add0"};
  return fmt("publish(%s)/poll(%s)", n[o.code % 5], g[o.a % 3]);
}
static Register r_publish({"atomic_publish", "P01", "plain data handed over through atomics; happens-before and value",
                           bit(K_STALE), 20000, gen_publish, run_publish, show_publish});

// ============================================================ P02: mutexes
// cfg: env, clients, mutexes, ; op: a = mutex mask, b = work points, c = sleep us
static void gen_mutex(Rng &r, Plan &p) {
  bool wide = r.below(8) == 0;
  int n = wide ? 4 + (int)r.below(5) : 2 + (int)r.below(3), m = 1 + (int)r.below(wide ? 6 : 4);
  p.cfg = {(i64)r.next() & 0xffff, n, m};
  int k = wide ? 8 + (int)r.below(30) : 3 + (int)r.below(14);
  for (int i = 0; i < k; i++) {
    Op o;
    o.thr = 1 + (int)r.below(n);
    o.a = 1 + (i64)r.below((1u << m) - 1);
    o.b = (i64)r.below(4);
    o.c = r.below(4) == 0 ? (i64)r.below(2000) : 0;
    p.ops.push_back(o);
  }
}
struct MutexCtx {
  const Plan *p;
  thread_mutex_t *mx[6];
  long *cnt;
  int owner[6];
  long expect[6];
};
static void mutex_client(void *v) {
  Cl *c = (Cl *)v;
  MutexCtx *x = (MutexCtx *)c->ctx;
  int m = (int)x->p->cfg[2];
  for (const Op &o : x->p->ops) {
    if (o.thr != c->thr) continue;
    for (int i = 0; i < m; i++)
      if (o.a >> i & 1) {
        log("lock m%d", i);
        thread_mutex_lock(x->mx[i]);
        if (x->owner[i]) violation("mutex-not-exclusive", "T%d entered m%d held by client %d", self(), i, x->owner[i]);
        x->owner[i] = c->thr;
        log("locked m%d", i);
      }
    for (int w = 0; w <= o.b; w++) {
      for (int i = 0; i < m; i++)
        if (o.a >> i & 1) {
          drv_incr(&x->cnt[i]);
          if (w == 0) x->expect[i] += o.b + 1;
          if (x->owner[i] != c->thr) violation("mutex-not-exclusive", "m%d stolen while held", i);
        }
      if (o.c && w == 0) {
        thread_timer_t t;
        thread_timer_init(&t);
        thread_timer_wait(&t, (u64)o.c * 1000);
        thread_timer_term(&t);
      }
    }
    for (int i = m - 1; i >= 0; i--)
      if (o.a >> i & 1) {
        x->owner[i] = 0;
        thread_mutex_unlock(x->mx[i]);
        log("unlocked m%d", i);
      }
  }
}
static void run_mutex(const Plan &p) {
  MutexCtx x;
  memset((void *)&x, 0, sizeof x);
  x.p = &p;
  int n = (int)p.cfg[1], m = (int)p.cfg[2];
  Spots sp(m, sizeof(thread_mutex_t), p.cfg[0]);
  x.cnt = (long *)heap_alloc(sizeof(long) * m);
  for (int i = 0; i < m; i++) {
    x.mx[i] = (thread_mutex_t *)sp.at[i];
    thread_mutex_init(x.mx[i]);
    drv_write(&x.cnt[i], 0);
  }
  Cl cl[12];
  int ids[12];
  for (int t = 1; t <= n; t++) {
    cl[t] = {&x, t};
    ids[t] = spawn(mutex_client, &cl[t], fmt("client%d", t).c_str());
  }
  for (int t = 1; t <= n; t++) join(ids[t]);
  for (int i = 0; i < m; i++) {
    long v = drv_read(&x.cnt[i]);
    if (v != x.expect[i])
      violation("mutex-lost-update", "counter %d is %ld, %ld increments were made under the lock", i, v, x.expect[i]);
    // a free mutex can be taken at once, then terminated
    thread_mutex_lock(x.mx[i]);
    thread_mutex_unlock(x.mx[i]);
    thread_mutex_term(x.mx[i]);
  }
  // the storage can be reused for a new mutex after term
  thread_mutex_init(x.mx[0]);
  thread_mutex_lock(x.mx[0]);
  thread_mutex_unlock(x.mx[0]);
  thread_mutex_term(x.mx[0]);
  note_trivial(p.ops.size() < 2);
  sp.free();
}
static std::string show_mutex(const Plan &, const Op &o) {
  return fmt("critical(mutexes=%llx,work=%lld,sleep=%lldus)", (unsigned long long)o.a, (long long)o.b, (long long)o.c);
}
static Register r_mutex({"mutex_excl", "P02", "critical sections of 2-8 threads over 1-6 mutexes; exclusion, progress, visibility",
                         bit(K_EINTR) | bit(K_LATE) | bit(K_STALE) | SF_STALL, 20000, gen_mutex, run_mutex, show_mutex});

// long successions of critical sections
static void gen_mxlong(Rng &r, Plan &p) {
  p.cfg = {(i64)r.next() & 0xffff, 2 + (i64)r.below(4), 1 + (i64)r.below(3), 50 + (i64)r.below(1ull << (6 + r.below(8))), (i64)r.next() & 0xffffff};
}
static void mxlong_client(void *v) {
  Cl *c = (Cl *)v;
  MutexCtx *x = (MutexCtx *)c->ctx;
  Rng r((u64)x->p->cfg[4] * 16 + c->thr);
  for (i64 k = 0; k < x->p->cfg[3]; k++) {
    int i = (int)r.below((u64)x->p->cfg[2]), j = i;
    thread_mutex_lock(x->mx[i]);
    if (r.below(8) == 0 && i + 1 < x->p->cfg[2]) thread_mutex_lock(x->mx[++j]);
    for (int q = i; q <= j; q++) {
      if (x->owner[q]) violation("mutex-not-exclusive", "client %d entered m%d held by client %d", c->thr, q, x->owner[q]);
      x->owner[q] = c->thr;
      drv_incr(&x->cnt[q]);
      x->expect[q]++;
    }
    for (int q = j; q >= i; q--) {
      if (x->owner[q] != c->thr) violation("mutex-not-exclusive", "m%d stolen while held", q);
      x->owner[q] = 0;
      thread_mutex_unlock(x->mx[q]);
    }
  }
}
static void run_mxlong(const Plan &p) {
  MutexCtx x;
  memset((void *)&x, 0, sizeof x);
  x.p = &p;
  int n = (int)p.cfg[1], m = (int)p.cfg[2];
  Spots sp(m, sizeof(thread_mutex_t), p.cfg[0]);
  x.cnt = (long *)heap_alloc(sizeof(long) * m);
  for (int i = 0; i < m; i++) {
    x.mx[i] = (thread_mutex_t *)sp.at[i];
    thread_mutex_init(x.mx[i]);
    drv_write(&x.cnt[i], 0);
  }
  Cl cl[8];
  int ids[8];
  for (int t = 1; t <= n; t++) {
    cl[t] = {&x, t};
    ids[t] = spawn(mxlong_client, &cl[t], fmt("client%d", t).c_str());
  }
  for (int t = 1; t <= n; t++) join(ids[t]);
  for (int i = 0; i < m; i++) {
    long v = drv_read(&x.cnt[i]);
    if (v != x.expect[i]) violation("mutex-lost-update", "counter %d is %ld, %ld increments were made under the lock", i, v, x.expect[i]);
    thread_mutex_term(x.mx[i]);
  }
  heap_free(x.cnt);
  sp.free();
}
static Register r_mxlong({"mutex_long", "P02", "thousands of critical sections of 2-5 threads over 1-3 mutexes",
                          bit(K_STALE) | SF_STALL, 6000000, gen_mxlong, run_mxlong, [](const Plan &, const Op &) { return std::string(); }});

// ============================================================ P03: signals
// one waiter, several raisers; auto-reset flag model
enum { S_RAISE, S_WAIT, S_SLEEP };
static void gen_signal(Rng &r, Plan &p) {
  int n = 1 + (int)r.below(3), m = r.below(3) ? 1 : 2;
  p.cfg = {(i64)r.next() & 0xffff, n, m};
  int k = 3 + (int)r.below(12) * m;
  static const i64 tos[] = {-1, -1, 0, 1, 3, 20, 200, 1500};
  for (int i = 0; i < k; i++) {
    Op o;
    o.thr = (int)r.below(n + 1);  // 0 = waiter
    o.b = (i64)r.below((u64)m);   // which signal
    if (r.below(5) == 0) {
      o.code = S_SLEEP;
      static const i64 us[] = {1, 100, 999, 3000, 19990, 20000, 200000, 199990};
      o.a = r.pick(us);
    } else if (o.thr == 0) {
      o.code = S_WAIT;
      o.a = r.pick(tos);
    } else
      o.code = S_RAISE;
    p.ops.push_back(o);
  }
}
struct SigCtx {  // one signal
  const Plan *p;
  int no;
  thread_signal_t *sig;
  std::vector<HOp> h;
  long *slots;
  std::vector<std::pair<u64, int>> completed;  // (res seq, slot) of completed raises
  int waits_done = 0;
  bool waiter_finished = false;
  int *next_slot;
};
static void do_raise(SigCtx *x, int thr) {
  int slot = (*x->next_slot)++;
  drv_write(&x->slots[slot], slot + 1000);
  size_t i = x->h.size();
  HOp h;
  h.thr = thr;
  h.kind = S_RAISE;
  h.inv = seq();
  x->h.push_back(h);
  log("raise s%d", x->no);
  thread_signal_raise(x->sig);
  x->h[i].res = seq();
  x->completed.push_back({x->h[i].res, slot});
}
static void sig_waiter(void *v) {
  SigCtx *x = (SigCtx *)v;
  for (const Op &o : x->p->ops) {
    if (o.thr != 0 || o.b != x->no) continue;
    if (o.code == S_SLEEP) {
      sleep_ns(o.a * 1000);
      continue;
    }
    size_t i = x->h.size();
    HOp h;
    h.thr = 0;
    h.kind = S_WAIT;
    h.a = o.a;
    h.inv = seq();
    x->h.push_back(h);
    log("wait s%d (%lld)", x->no, (long long)o.a);
    std::vector<int> before;
    for (auto &c : x->completed) before.push_back(c.second);
    int r = thread_signal_wait(x->sig, (int)o.a);
    x->h[i].r = r != 0;
    x->h[i].res = seq();
    log("wait s%d (%lld) = %d", x->no, (long long)o.a, r);
    hash_in(r != 0);
    if (!r && o.a < 0) violation("infinite-wait-timed-out", "wait without a timeout returned 0");
    if (r) {
      // everything done before an earlier completed raise is visible
      for (int s : before)
        if (drv_read(&x->slots[s]) != s + 1000) violation("signal-not-visible", "payload of raise %d not visible", s);
      SIM_PROBE("signal: wait satisfied");
    } else
      SIM_PROBE("signal: wait timed out");
    x->waits_done++;
  }
  x->waiter_finished = true;
}
static void sig_raiser(void *v) {
  Cl *c = (Cl *)v;
  SigCtx *x = (SigCtx *)c->ctx;
  for (const Op &o : x->p->ops) {
    if (o.thr != c->thr) continue;
    if (o.code == S_SLEEP)
      sleep_ns(o.a * 1000);
    else
      do_raise(x + o.b, c->thr);
  }
}
static void finish_signal(SigCtx &x, int w);
static void run_signal(const Plan &p) {
  int n = (int)p.cfg[1], m = (int)p.cfg[2], next_slot = 0;
  SigCtx s[2];
  Spots sp(m, sizeof(thread_signal_t), p.cfg[0]);
  long *slots = (long *)heap_alloc(sizeof(long) * 128);
  Cl cl[8];
  int ids[8], w[2];
  for (int i = 0; i < m; i++) {
    s[i].p = &p;
    s[i].no = i;
    s[i].sig = (thread_signal_t *)sp.at[i];
    s[i].slots = slots;
    s[i].next_slot = &next_slot;
    thread_signal_init(s[i].sig);
  }
  for (int i = 0; i < m; i++) w[i] = spawn(sig_waiter, &s[i], i ? "waiter2" : "waiter");
  for (int t = 1; t <= n; t++) {
    cl[t] = {s, t};
    ids[t] = spawn(sig_raiser, &cl[t], fmt("raiser%d", t).c_str());
  }
  for (int t = 1; t <= n; t++) join(ids[t]);
  for (int i = 0; i < m; i++) finish_signal(s[i], w[i]);
  note_trivial(p.ops.size() < 2);
  sp.free();
}
static void finish_signal(SigCtx &x, int w) {
  // liveness: from here on each raise must let a blocked waiter finish its wait
  while (!x.waiter_finished) {
    sleep_ns(30000 * MS);  // longer than any timed wait, think time or stall
    if (x.waiter_finished) break;
    int before = x.waits_done;
    do_raise(&x, 9);
    SIM_PROBE("signal: waiter still blocked when main raises");
    sleep_ns(30000 * MS);
    if (!x.waiter_finished && x.waits_done == before)
      violation("lost-raise", "a raise was not followed by the blocked waiter's return (30 s simulated)");
  }
  join(w);
  if (!linearizable(x.h, 0, [](int &f, const HOp &h) {
        if (h.kind == S_RAISE) {
          f = 1;
          return true;
        }
        if (!h.done()) return false;
        if (h.r) {
          if (!f) return false;
          f = 0;
          return true;
        }
        return f == 0;
      })) {
    std::string d;
    for (auto &q : x.h)
      d += q.kind == S_RAISE ? fmt("raise[%llu,%llu] ", (unsigned long long)q.inv, (unsigned long long)q.res)
                             : fmt("wait(%lld)=%lld[%llu,%llu] ", (long long)q.a, (long long)q.r,
                                   (unsigned long long)q.inv, (unsigned long long)q.res);
    violation("signal-history", "no order of these events explains the results: %s", d.substr(0, 800).c_str());
  }
  thread_signal_term(x.sig);
}
static std::string show_signal(const Plan &, const Op &o) {
  return o.code == S_RAISE ? fmt("raise s%lld", (long long)o.b)
         : o.code == S_WAIT ? fmt("wait s%lld (%lld ms)", (long long)o.b, (long long)o.a)
                            : fmt("sleep(%lld us)", (long long)o.a);
}
static Register r_signal({"signal_hist", "P03", "1-2 signals with one waiter each, several raisers; auto-reset flag linearizability and liveness",
                          bit(K_SPURIOUS) | bit(K_WAKE) | bit(K_LATE) | SF_STALL | SF_CLOCK, 30000, gen_signal, run_signal,
                          show_signal});

// long histories of one signal: bursts of raises are one raise
enum { L_RAISE, L_WAIT0, L_WAITMS, L_OTHER, L_N };
static void gen_siglong(Rng &r, Plan &p) {
  p.cfg = {(i64)r.next() & 0xffff};
  int k = 2 + (int)r.below(12);
  for (int i = 0; i < k; i++) {
    Op o;
    o.code = (int)r.below(L_N);
    static const i64 edge[] = {1, 2, 127, 128, 129, 255, 256, 257, 1000, 32767, 32768, 65535, 65536, 65537};
    o.a = r.below(3) == 0 ? r.pick(edge) : 1 + (i64)r.below(1ull << r.below(10));
    if (o.code == L_WAITMS) o.a = 1 + o.a % 300;
    p.ops.push_back(o);
  }
}
struct SigLong {
  thread_signal_t *s;
  i64 n;
  bool done;
};
static void siglong_raiser(void *v) {
  SigLong *x = (SigLong *)v;
  for (i64 i = 0; i < x->n; i++) thread_signal_raise(x->s);
  x->done = true;
}
static void run_siglong(const Plan &p) {
  Spots sp(1, sizeof(thread_signal_t), p.cfg[0]);
  thread_signal_t *s = (thread_signal_t *)sp.at[0];
  thread_signal_init(s);
  bool flag = false;
  int others = 0;
  i64 raises = 0;
  auto wait = [&](int ms) {
    bool r = thread_signal_wait(s, ms) != 0;
    if (r != flag) violation(r ? "wait-without-raise" : "raise-ignored", "after %lld raises, wait(%d) gives %d", (long long)raises, ms, (int)r);
    flag = false;
  };
  for (const Op &o : p.ops) {
    i64 n = std::min<i64>(o.a, 70000 - raises);
    switch (o.code) {
      case L_RAISE:
        for (i64 i = 0; i < n; i++) thread_signal_raise(s), raises++;
        flag |= n > 0;
        break;
      case L_WAIT0: wait(0); break;
      case L_WAITMS:  // the first of them takes the raise
        for (i64 i = 0; i < o.a; i++) wait(1 + (int)(i & 1));
        break;
      case L_OTHER: {  // another thread raises while this one waits
        if (others++ >= 10 || n <= 0) break;
        SigLong x = {s, n, false};
        int id = spawn(siglong_raiser, &x, "raiser");
        i64 got = 0, before = flag;
        while (!x.done) got += thread_signal_wait(s, 1) != 0;
        join(id);
        bool last = thread_signal_wait(s, 0) != 0;
        got += last;
        raises += n;
        if (got > n + before) violation("raise-counted-twice", "%lld raises satisfied %lld waits", (long long)n, (long long)got);
        if (!got) violation("lost-raise", "%lld raises and no wait saw any", (long long)n);
        flag = false;
        break;
      }
    }
  }
  wait(0);
  wait(0);
  thread_signal_term(s);
  sp.free();
}
static std::string show_siglong(const Plan &, const Op &o) {
  static const char *const n[] = {"raise, times", "wait(0)", "wait(1..2 ms), times", "another thread raises, times"};
  return fmt("%s %lld", n[o.code], (long long)o.a);
}
static Register r_siglong({"signal_long", "P03", "bursts of up to 65537 raises of one signal and of timed-out waits: however many, they are one raise",
                           bit(K_SPURIOUS) | bit(K_WAKE) | bit(K_LATE) | SF_STALL | SF_CLOCK, 8000000, gen_siglong, run_siglong, show_siglong});

// ============================================================ P04: signal timeouts
static void gen_sigtime(Rng &r, Plan &p) {
  int w = r.below(3) ? 1 : 2 + (int)r.below(3);  // waiters, each with a signal of its own
  p.cfg = {(i64)r.next() & 0xffffff, (i64)r.below(3), w};
  int k = w + (int)r.below(5 + w);
  static const i64 tos[] = {0, 1, 2, 3, 5, 10, 50, 99, 100, 250, 500, 501, 900, 998, 999, 1000, 1001, 1500, 1999, 2000, 2001, 2500, 3999, 10000, 60000, 3600000, 86400000, 2147483647};
  for (int i = 0; i < k; i++) {
    Op o;
    o.thr = (int)r.below(w);
    o.code = S_WAIT;
    o.a = r.below(3) ? r.pick(tos) : (i64)r.below(4000);
    // raise from the other thread after b us of that wait; -1 = never; -2 = already raised
    o.b = r.below(3) == 0 ? (i64)r.below((u64)(o.a > 5000 ? 5000000 : o.a * 1500 + 1)) : r.below(4) == 0 ? -2 : -1;
    o.c = r.below(2) ? (i64)r.below(1500000) : 0;  // think time before, us
    p.ops.push_back(o);
  }
}
struct StCtx {  // one waiter
  const Plan *p;
  int thr, *nraise;
  thread_signal_t *sig;
  i64 delay;
  bool go, stop, raised;
  i64 raised_at;
};
static void st_raiser(void *v) {
  StCtx *x = (StCtx *)v;
  sleep_ns(x->delay);
  x->raised_at = mono_now();
  thread_signal_raise(x->sig);
  x->raised = true;
}
static void st_waiter(void *v) {
  StCtx &x = *(StCtx *)v;
  for (const Op &o : x.p->ops) {
    if (o.thr != x.thr) continue;
    if (o.c) sleep_ns(o.c * 1000);
    x.raised = false;
    x.raised_at = 0;
    int rid = -1;
    if (o.b == -2) {
      thread_signal_raise(x.sig);
    } else if (o.b >= 0 && *x.nraise < 8) {
      ++*x.nraise;
      x.delay = o.b * 1000;
      rid = spawn(st_raiser, &x, "raiser");
    }
    i64 t0 = mono_now(), s0 = stall_total();
    log("wait(%lld ms) begins", (long long)o.a);
    int r = thread_signal_wait(x.sig, (int)o.a);
    i64 el = mono_now() - t0, st = stall_total() - s0 + stall_overlap(t0);
    log("wait(%lld ms) = %d after %.3f ms", (long long)o.a, r, el / 1e6);
    if (!r) {
      SIM_PROBE("timeout: expired");
      if (el < o.a * MS - MS)
        violation("timeout-early", "wait(%lld ms) reported a timeout after %.3f ms", (long long)o.a, el / 1e6);
      if (o.b == -2) violation("raise-ignored", "wait(%lld ms) timed out on a signal that was already raised", (long long)o.a);
    } else {
      if (o.b == -1) violation("wait-without-raise", "wait(%lld ms) reported a raise; there was none", (long long)o.a);
      if (o.b == -2 && el > st + SLACK) violation("raise-ignored", "wait on a raised signal took %.3f ms", el / 1e6);
      if (o.b >= 0) SIM_PROBE("timeout: raised during the wait");
    }
    i64 limit = o.a * MS + SLACK + st;
    if (el > limit)
      violation("timeout-late", "wait(%lld ms) returned after %.3f ms (injected delays %.3f ms)", (long long)o.a, el / 1e6,
                st / 1e6);
    if (rid >= 0) {
      join(rid);
      if (r && x.raised_at > t0 && el > x.raised_at - t0 + SLACK + st)
        violation("raise-ignored", "wait returned %.3f ms after the raise", (el - (x.raised_at - t0)) / 1e6);
      if (!r) {
        // consume the raise that came too late; it must not have been lost
        if (!thread_signal_wait(x.sig, 0)) {
          // legal only if the raise was consumed by nobody: never
          violation("lost-raise", "a raise concurrent with a timeout vanished");
        }
      } else if (thread_signal_wait(x.sig, 0))
        violation("raise-counted-twice", "one raise satisfied two waits");
    }
  }
}
static void run_sigtime(const Plan &p) {
  int w = (int)p.cfg[2], nraise = 0, ids[4];
  Spots sp(w, sizeof(thread_signal_t), p.cfg[0]);
  StCtx x[4];
  memset((void *)x, 0, sizeof x);
  for (int i = 0; i < w; i++) {
    x[i].p = &p;
    x[i].thr = i;
    x[i].nraise = &nraise;
    x[i].sig = (thread_signal_t *)sp.at[i];
    thread_signal_init(x[i].sig);
  }
  for (int i = 1; i < w; i++) ids[i] = spawn(st_waiter, &x[i], fmt("waiter%d", i).c_str());
  st_waiter(&x[0]);
  for (int i = 1; i < w; i++) join(ids[i]);
  for (int i = 0; i < w; i++) thread_signal_term(x[i].sig);
  note_trivial(p.ops.empty());
  sp.free();
}
static std::string show_sigtime(const Plan &, const Op &o) {
  return fmt("think %lldus; wait(%lld ms) %s", (long long)o.c, (long long)o.a,
             o.b == -1 ? "no raise" : o.b == -2 ? "already raised" : fmt("raise after %lld us", (long long)o.b).c_str());
}
static Register r_sigtime({"signal_time", "P04", "1-4 waiters on signals of their own: timed waits across second boundaries, clock steps, spurious and late wakeups",
                           bit(K_SPURIOUS) | bit(K_LATE) | bit(K_TIMELAG) | bit(K_STALE) | SF_STALL | SF_CLOCK, 30000, gen_sigtime,
                           run_sigtime, show_sigtime});

// ============================================================ P05/P06: queue
enum { Q_PRODUCE, Q_CONSUME, Q_COUNT, Q_SLEEP };
static void gen_queue(Rng &r, Plan &p) {
  int size = 1 + (int)(r.below(4) == 0 ? r.below(8) : r.below(3));
  if (r.below(24) == 0) size = 9 + (int)r.below(r.below(2) ? 24 : 290);
  int init = (int)r.below(3) ? 0 : (int)r.below(size + 1);
  if (size > 8 && r.below(2)) init = size - (int)r.below(3);  // so that the positions wrap
  p.cfg = {(i64)r.next() & 0xffff, size, init, (i64)r.below(2)};
  int k = 4 + (int)r.below(18);
  static const i64 tos[] = {-1, -1, -1, -1, 0, 0, 0, 1, 5, 50, 300, 1200, 4500, 3000000, 2147483647};
  u64 obs = r.below(3);
  for (int i = 0; i < k; i++) {
    Op o;
    u64 x = r.below(10);
    o.thr = x < 4 ? 1 : x < 8 ? 2 : x == 8 && obs ? 3 : 1 + (int)r.below(2);
    if (o.thr == 3) {
      o.code = Q_COUNT;
    } else if (r.below(7) == 0) {
      o.code = Q_SLEEP;
      static const i64 us[] = {1, 50, 900, 4990, 5000, 49990, 50000, 250000};
      o.a = r.pick(us);
    } else if (r.below(10) == 0) {
      o.code = Q_COUNT;
    } else {
      o.code = o.thr == 1 ? Q_PRODUCE : Q_CONSUME;
      o.a = r.pick(tos);
    }
    p.ops.push_back(o);
  }
}
struct QOp {
  u64 inv, res;
  i64 t0, t1, st;
  int kind;
  i64 to;
  bool ok;
  i64 val;
};
struct QCtx {
  const Plan *p;
  thread_queue_t *q;
  void **values;
  long *payload;
  int next_item = 0;
  std::vector<QOp> h[4];
  bool prod_done = false, cons_list_done = false;
  bool timing;
};
static void *item_ptr(QCtx *x, int i) { return &x->payload[i]; }
static bool q_produce(QCtx *x, i64 to) {
  int it = x->next_item++;
  if (it >= 128 + (int)x->p->cfg[2]) harness_error("queue scenario: too many items");
  drv_write(&x->payload[it], it + 7000);
  QOp o;
  o.kind = Q_PRODUCE;
  o.to = to;
  o.val = it;
  o.t0 = mono_now();
  i64 s0 = stall_total();
  o.inv = seq();
  log("produce(#%d, %lld)", it, (long long)to);
  int r = thread_queue_produce(x->q, item_ptr(x, it), (int)to);
  o.res = seq();
  o.t1 = mono_now();
  o.st = stall_total() - s0 + stall_overlap(o.t0);
  o.ok = r != 0;
  log("produce(#%d, %lld) = %d", it, (long long)to, r);
  x->h[1].push_back(o);
  hash_in(o.ok);
  if (!o.ok && to < 0) violation("queue-infinite-failed", "produce with an infinite timeout returned 0");
  return o.ok;
}
static bool q_consume(QCtx *x, i64 to) {
  QOp o;
  o.kind = Q_CONSUME;
  o.to = to;
  o.t0 = mono_now();
  i64 s0 = stall_total();
  o.inv = seq();
  log("consume(%lld)", (long long)to);
  void *r = thread_queue_consume(x->q, (int)to);
  o.res = seq();
  o.t1 = mono_now();
  o.st = stall_total() - s0 + stall_overlap(o.t0);
  o.ok = r != nullptr;
  o.val = -1;
  if (r) {
    if ((char *)r < (char *)x->payload || (char *)r >= (char *)(x->payload + 128 + x->p->cfg[2]) || ((char *)r - (char *)x->payload) % 8)
      violation("queue-garbage", "consume returned a pointer that was never produced");
    o.val = (long *)r - x->payload;
    long d = drv_read((long *)r);
    if (d != o.val + 7000) violation("queue-not-visible", "item #%lld consumed but its contents are not visible", (long long)o.val);
  }
  log("consume(%lld) = #%lld", (long long)to, (long long)o.val);
  x->h[2].push_back(o);
  hash_in((u64)o.val);
  if (!o.ok && to < 0) violation("queue-infinite-failed", "consume with an infinite timeout returned NULL");
  return o.ok;
}
static void q_count(QCtx *x, int thr) {
  QOp o;
  o.kind = Q_COUNT;
  o.inv = seq();
  o.t0 = mono_now();
  int c = thread_queue_count(x->q);
  o.res = seq();
  o.t1 = mono_now();
  o.st = 0;
  o.to = 0;
  o.ok = true;
  o.val = c;
  x->h[thr].push_back(o);
  if (c < 0 || c > x->p->cfg[1]) violation("queue-count-range", "count() = %d with %lld slots", c, (long long)x->p->cfg[1]);
}
static void q_producer(void *v) {
  QCtx *x = (QCtx *)v;
  for (const Op &o : x->p->ops) {
    if (o.thr != 1) continue;
    if (o.code == Q_SLEEP) sleep_ns(o.a * 1000);
    else if (o.code == Q_COUNT) q_count(x, 1);
    else q_produce(x, o.a);
  }
  // feed the consumer until its own list is through (it may wait without a timeout)
  int made = (int)x->p->cfg[2];
  while (!x->cons_list_done && x->next_item - made < 120) {
    q_produce(x, 40);
    if (x->next_item - made > 40) sleep_ns(200 * MS);
  }
  x->prod_done = true;
}
static void q_consumer(void *v) {
  QCtx *x = (QCtx *)v;
  for (const Op &o : x->p->ops) {
    if (o.thr != 2) continue;
    if (o.code == Q_SLEEP) sleep_ns(o.a * 1000);
    else if (o.code == Q_COUNT) q_count(x, 2);
    else q_consume(x, o.a);
  }
  x->cons_list_done = true;
  int guard = 0;
  while (!x->prod_done) {
    q_consume(x, 60);
    if (++guard > 400 + (int)x->p->cfg[2]) violation("queue-stuck", "producer made no progress while the consumer drained");
  }
  while (q_consume(x, 0)) {
  }
}
static void q_observer(void *v) {
  QCtx *x = (QCtx *)v;
  for (const Op &o : x->p->ops)
    if (o.thr == 3) {
      if (o.code == Q_COUNT) q_count(x, 3);
      else sleep_ns(o.a * 1000);
    }
}
static void q_check_fifo(QCtx &x) {
  int init = (int)x.p->cfg[2];
  // FIFO, exactly once, nothing lost, nothing invented
  std::vector<i64> in, out;
  for (int i = 0; i < init; i++) in.push_back(i);
  for (auto &o : x.h[1])
    if (o.kind == Q_PRODUCE && o.ok) in.push_back(o.val);
  for (auto &o : x.h[2])
    if (o.kind == Q_CONSUME && o.ok) out.push_back(o.val);
  if (in != out) {
    std::string d = "accepted:";
    for (i64 v : in) d += fmt(" %lld", (long long)v);
    d += " received:";
    for (i64 v : out) d += fmt(" %lld", (long long)v);
    violation("queue-fifo", "%s", d.substr(0, 700).c_str());
  }
}
static void q_check(QCtx &x) {
  int size = (int)x.p->cfg[1], init = (int)x.p->cfg[2];
  // the whole history has a sequential explanation (bounded FIFO of `size`)
  std::vector<QOp> &P = x.h[1], &C = x.h[2], &O = x.h[3];
  size_t np = P.size(), nc = C.size(), no = O.size();
  std::vector<char> reach((np + 1) * (nc + 1) * (no + 1), 0);
  auto id = [&](size_t i, size_t j, size_t k) { return (i * (nc + 1) + j) * (no + 1) + k; };
  std::vector<int> ap(np + 1), ac(nc + 1);
  ap[0] = init;
  for (size_t i = 0; i < np; i++) ap[i + 1] = ap[i] + (P[i].kind == Q_PRODUCE && P[i].ok);
  ac[0] = 0;
  for (size_t j = 0; j < nc; j++) ac[j + 1] = ac[j] + (C[j].kind == Q_CONSUME && C[j].ok);
  reach[0] = 1;
  auto legal = [&](const QOp &o, int fill) {
    if (o.kind == Q_COUNT) return o.val == fill;
    if (o.kind == Q_PRODUCE) return o.ok ? fill < size : fill == size;
    return o.ok ? fill > 0 : fill == 0;
  };
  size_t bi = 0, bj = 0;
  for (size_t i = 0; i <= np; i++)
    for (size_t j = 0; j <= nc; j++)
      for (size_t k = 0; k <= no; k++) {
        if (!reach[id(i, j, k)]) continue;
        if (i + j > bi + bj) bi = i, bj = j;
        int fill = ap[i] - ac[j];
        u64 lim = ~0ull;
        if (i < np && P[i].res < lim) lim = P[i].res;
        if (j < nc && C[j].res < lim) lim = C[j].res;
        if (k < no && O[k].res < lim) lim = O[k].res;
        if (i < np && P[i].inv < lim && legal(P[i], fill)) reach[id(i + 1, j, k)] = 1;
        if (j < nc && C[j].inv < lim && legal(C[j], fill)) reach[id(i, j + 1, k)] = 1;
        if (k < no && O[k].inv < lim && legal(O[k], fill)) reach[id(i, j, k + 1)] = 1;
      }
  if (!reach[id(np, nc, no)]) {
    std::string d;
    for (size_t i = bi; i < np && i < bi + 2; i++)
      d += fmt("producer %s(to=%lld)=%d item %lld; ", P[i].kind == Q_COUNT ? "count" : "produce", (long long)P[i].to, P[i].ok, (long long)P[i].val);
    for (size_t j = bj; j < nc && j < bj + 2; j++)
      d += fmt("consumer %s(to=%lld)=%lld; ", C[j].kind == Q_COUNT ? "count" : "consume", (long long)C[j].to, (long long)C[j].val);
    violation("queue-history", "size %d, fill %d: no sequential order explains: %s", size, ap[bi] - ac[bj], d.c_str());
  }
}
static void q_check_time(QCtx &x) {
  for (int t = 1; t <= 2; t++)
    for (auto &o : x.h[t]) {
      if (o.kind == Q_COUNT) continue;
      i64 el = o.t1 - o.t0;
      const char *nm = t == 1 ? "produce" : "consume";
      if (o.to == 0 && el > SLACK + o.st)
        violation("queue-nonblocking-blocked", "%s with timeout 0 took %.3f ms", nm, el / 1e6);
      if (!o.ok && o.to > 0) {
        SIM_PROBE("queue: timed operation expired");
        if (el < o.to * MS - MS)
          violation("queue-timeout-early", "%s(%lld ms) gave up after %.3f ms", nm, (long long)o.to, el / 1e6);
      }
      if (o.to >= 0 && el > o.to * MS + SLACK + o.st)
        violation("queue-timeout-late", "%s(%lld ms) returned after %.3f ms (injected delays %.3f ms)", nm, (long long)o.to,
                  el / 1e6, o.st / 1e6);
      // a blocked call must notice what the other side does
      if (o.to != 0) {
        for (auto &c : x.h[3 - t]) {
          if (c.kind == Q_COUNT || !c.ok) continue;
          if (c.inv > o.inv && c.res < o.res && o.t1 - c.t1 > SLACK + o.st)
            violation("queue-missed-wakeup", "%s(%lld ms) was still blocked %.3f ms after the other side %s an element", nm,
                      (long long)o.to, (o.t1 - c.t1) / 1e6, t == 1 ? "removed" : "added");
        }
      }
    }
}
static void run_queue_common(const Plan &p, bool timing) {
  QCtx x;
  x.p = &p;
  x.timing = timing;
  int size = (int)p.cfg[1], init = (int)p.cfg[2];
  x.q = (thread_queue_t *)heap_alloc(sizeof(thread_queue_t));
  x.values = (void **)heap_alloc(sizeof(void *) * size, 16);
  x.payload = (long *)heap_alloc(sizeof(long) * (128 + init));
  for (int i = 0; i < init; i++) {
    drv_write(&x.payload[x.next_item], x.next_item + 7000);
    x.values[i] = item_ptr(&x, x.next_item++);
  }
  thread_queue_init(x.q, size, x.values, init);
  bool prod_first = p.cfg[3];
  int a = -1, b = -1, c = -1;
  if (prod_first) a = spawn(q_producer, &x, "producer");
  b = spawn(q_consumer, &x, "consumer");
  if (!prod_first) a = spawn(q_producer, &x, "producer");
  bool obs = false;
  for (auto &o : p.ops) obs |= o.thr == 3;
  if (obs) c = spawn(q_observer, &x, "observer");
  join(a);
  join(b);
  if (c >= 0) join(c);
  if (thread_queue_count(x.q) != 0) violation("queue-fifo", "count() = %d after everything was consumed", thread_queue_count(x.q));
  q_check_fifo(x);
  // (queue_block may delay the effect of stores that are not sequentially consistent, so
  // only queue_fifo asks for an order consistent with real time)
  if (timing) q_check_time(x);
  else q_check(x);
  for (auto &o : x.h[1]) {
    if (o.kind == Q_PRODUCE && !o.ok) SIM_PROBE("queue: produce refused (full)");
    if (o.kind == Q_PRODUCE && o.ok && o.t1 - o.t0 > MS) SIM_PROBE("queue: produce blocked, then succeeded");
  }
  for (auto &o : x.h[2]) {
    if (o.kind == Q_CONSUME && !o.ok) SIM_PROBE("queue: consume refused (empty)");
    if (o.kind == Q_CONSUME && o.ok && o.t1 - o.t0 > MS) SIM_PROBE("queue: consume blocked, then succeeded");
  }
  if ((int)x.next_item > size * 2) SIM_PROBE("queue: slots wrapped around at least twice");
  thread_queue_term(x.q);
  note_trivial(p.ops.size() < 2);
  heap_free(x.values);
  heap_free(x.q);
}
static void run_queue(const Plan &p) { run_queue_common(p, false); }
static void run_queue_time(const Plan &p) { run_queue_common(p, true); }
static std::string show_queue(const Plan &, const Op &o) {
  return o.code == Q_PRODUCE ? fmt("produce(%lld ms)", (long long)o.a)
         : o.code == Q_CONSUME ? fmt("consume(%lld ms)", (long long)o.a)
         : o.code == Q_COUNT ? "count()" : fmt("sleep(%lld us)", (long long)o.a);
}
static Register r_queue({"queue_fifo", "P05", "one producer, one consumer, optional observer; FIFO exactly-once and bounded-queue linearizability",
                         bit(K_SPURIOUS) | bit(K_LATE) | bit(K_TIMELAG) | SF_STALL | SF_CLOCK, 40000, gen_queue, run_queue,
                         show_queue});
static Register r_queuet({"queue_block", "P06", "blocking, timeout, wakeup and count behaviour of the queue",
                          bit(K_SPURIOUS) | bit(K_LATE) | bit(K_TIMELAG) | bit(K_STALE) | SF_STALL | SF_CLOCK, 40000, gen_queue,
                          run_queue_time, show_queue});

// Queues in a row : each thread takes from one queue and gives to the next.
// cfg: env, queues, size of each, items already in the first queue. op: an item; a = timeout of
// every attempt to hand it over, b = timeout of every attempt to take it, c = think time of the source (us)
static void gen_pipe(Rng &r, Plan &p) {
  int n = 1 + (int)r.below(3);
  p.cfg = {(i64)r.next() & 0xffff, n, 1 + (i64)r.below(4), 1 + (i64)r.below(4), 1 + (i64)r.below(4), 0};
  p.cfg[5] = (i64)r.below((u64)p.cfg[2] + 3);
  int k = 1 + (int)r.below(12);
  static const i64 tos[] = {-1, -1, -1, 0, 1, 5, 50};
  for (int i = 0; i < k; i++) {
    Op o;
    o.a = r.pick(tos);
    o.b = r.pick(tos);
    o.c = r.below(4) ? 0 : (i64)r.below(60000);
    p.ops.push_back(o);
  }
}
struct PipeCtx {
  const Plan *p;
  thread_queue_t *q[3];
  long *payload;
  int first, total;  // items [0,first) were there from the start
};
static const Op &pipe_op(PipeCtx *x, int i) { return x->p->ops[(size_t)i % x->p->ops.size()]; }
static int pipe_take(PipeCtx *x, int qi, i64 to) {
  for (;;) {
    void *r = thread_queue_consume(x->q[qi], (int)to);
    if (r) {
      if ((char *)r < (char *)x->payload || (char *)r >= (char *)(x->payload + 64) || ((char *)r - (char *)x->payload) % 8)
        violation("queue-garbage", "consume returned a pointer that was never produced");
      return (int)((long *)r - x->payload);
    }
    if (to < 0) violation("queue-infinite-failed", "consume with an infinite timeout returned NULL");
    SIM_PROBE("pipeline: take failed and was tried again");
    sleep_ns(MS);
  }
}
static void pipe_give(PipeCtx *x, int qi, int it, i64 to) {
  for (;;) {
    if (thread_queue_produce(x->q[qi], &x->payload[it], (int)to)) return;
    if (to < 0) violation("queue-infinite-failed", "produce with an infinite timeout returned 0");
    SIM_PROBE("pipeline: give failed and was tried again");
    sleep_ns(MS);
  }
}
static void pipe_source(void *v) {
  PipeCtx *x = (PipeCtx *)v;
  for (int i = x->first; i < x->total; i++) {
    const Op &o = pipe_op(x, i - x->first);
    if (o.c) sleep_ns(o.c * 1000);
    drv_write(&x->payload[i], i + 7000);
    log("give #%d to q0", i);
    pipe_give(x, 0, i, o.a);
  }
}
static void pipe_stage(void *v) {  // takes from queue thr-1; all but the last give to queue thr
  Cl *c = (Cl *)v;
  PipeCtx *x = (PipeCtx *)c->ctx;
  int n = (int)x->p->cfg[1];
  for (int i = 0; i < x->total; i++) {
    const Op &o = pipe_op(x, i);
    int it = pipe_take(x, c->thr - 1, o.b);
    log("q%d gave #%d", c->thr - 1, it);
    hash_in((u64)it);
    if (it != i) violation("queue-fifo", "queue %d delivered item #%d where #%d was due", c->thr - 1, it, i);
    long d = drv_read(&x->payload[it]);
    if (d != it + 7000 + c->thr - 1) violation("queue-not-visible", "item #%d arrived at stage %d with %ld", it, c->thr, d);
    drv_incr(&x->payload[it]);
    if (c->thr < n) pipe_give(x, c->thr, it, o.a);
  }
}
static void run_pipe(const Plan &p) {
  if (p.ops.empty()) { note_trivial(true); return; }
  PipeCtx x;
  x.p = &p;
  int n = (int)p.cfg[1];
  x.payload = (long *)heap_alloc(sizeof(long) * 64);
  void **slots[3];
  // more initial elements than slots: the queue takes as many as fit
  int init = (int)p.cfg[5], have = init;
  if (have > (int)p.cfg[2]) have = (int)p.cfg[2];
  x.first = have;
  x.total = have + (int)p.ops.size();
  Spots sp(n, sizeof(thread_queue_t), p.cfg[0]);
  for (int i = 0; i < n; i++) {
    x.q[i] = (thread_queue_t *)sp.at[i];
    slots[i] = (void **)heap_alloc(sizeof(void *) * (size_t)p.cfg[2 + i], 16);
  }
  for (int i = 0; i < have; i++) {
    drv_write(&x.payload[i], i + 7000);
    slots[0][i] = &x.payload[i];
  }
  for (int i = 0; i < n; i++) {
    thread_queue_init(x.q[i], (int)p.cfg[2 + i], slots[i], i ? 0 : init);
    int c = thread_queue_count(x.q[i]);
    if (c != (i ? 0 : have)) violation("queue-count-range", "a queue made with %d elements and %lld slots counts %d", i ? 0 : init, (long long)p.cfg[2 + i], c);
  }
  Cl cl[4];
  int ids[4];
  ids[0] = spawn(pipe_source, &x, "source");
  for (int t = 1; t <= n; t++) {
    cl[t] = {&x, t};
    ids[t] = spawn(pipe_stage, &cl[t], fmt("stage%d", t).c_str());
  }
  for (int t = 0; t <= n; t++) join(ids[t]);
  for (int i = 0; i < n; i++) {
    if (thread_queue_count(x.q[i]) != 0) violation("queue-fifo", "queue %d counts %d after everything was consumed", i, thread_queue_count(x.q[i]));
    thread_queue_term(x.q[i]);
    heap_free(slots[i]);
  }
  note_trivial(p.ops.size() < 2);
  heap_free(x.payload);
  sp.free();
}
static std::string show_pipe(const Plan &, const Op &o) {
  return fmt("item(give %lld ms, take %lld ms, think %lld us)", (long long)o.a, (long long)o.b, (long long)o.c);
}
static Register r_pipe({"queue_pipe", "P06", "1-3 queues in a row, each thread consumer of one and producer of the next; order, visibility, completion",
                        bit(K_SPURIOUS) | bit(K_LATE) | bit(K_TIMELAG) | bit(K_STALE) | SF_STALL | SF_CLOCK, 40000, gen_pipe, run_pipe,
                        show_pipe});

// ============================================================ P07: thread lifecycle
// op: a = exit code, b = how (0 return,1 thread_exit,2 nested exit), c = flags
//   c bits: 0-1,11 name, 2-3,8-9 stack size, 4 join before destroy, 5 sleeps, 6 spawns child, 7 priority/yield
static void gen_life(Rng &r, Plan &p) {
  bool many = r.below(300) == 0;  // a long succession of threads, some of them alive together
  p.cfg = {(i64)r.next() & 0xffff, (i64)r.below(4), many ? 1 + (i64)r.below(12) : 0};
  int k = many ? 20 + (int)r.below(300) : 1 + (int)r.below(6);
  static const i64 codes[] = {0, 1, -1, 42, INT_MAX, INT_MIN, 255, -7777};
  for (int i = 0; i < k; i++) {
    Op o;
    o.a = r.below(3) ? r.pick(codes) : (i64)(int)r.next();
    o.b = (i64)r.below(3);
    o.c = (i64)r.below(4096);
    if (many) o.c &= ~(i64)64;
    o.code = (int)r.below(1000);  // when it is reaped: order key
    p.ops.push_back(o);
  }
}
struct LifeRec {
  const Op *o;
  thread_ptr_t h;
  long *result;     // written by the thread, read after join
  int ran;
  int *live;
  u64 stack;
  thread_id_t id;
  bool done;
  bool joined;
  struct LifeRec *child;
  std::multiset<void *> *ids;
};
static void life_deep(int d, int code) {
  if (d == 0) thread_exit(code);
  life_deep(d - 1, code);
}
static int life_proc(void *v) {
  LifeRec *r = (LifeRec *)v;
  r->ran++;
  r->stack = sim_thread_stack_request(self());
  r->id = thread_current_thread_id();
  if (r->ids->count(r->id)) violation("thread-id-reused", "two live threads have the same id");
  r->ids->insert(r->id);
  const Op &o = *r->o;
  if (o.c & 32) {
    thread_timer_t t;
    thread_timer_init(&t);
    thread_timer_wait(&t, 1000000ull * (u64)(o.code % 50));
    thread_timer_term(&t);
  }
  if (o.c & 128) {
    thread_set_high_priority();
    thread_yield();
  }
  if (thread_current_thread_id() != r->id) violation("thread-id-changed", "a thread's id changed");
  if (o.c & 64 && r->child) {
    LifeRec *c = r->child;
    c->h = thread_create(life_proc, c, "nested", 0);
    if (c->h) {
      if (o.c & 1) c->joined = true;
      if (c->joined) {
        int rv = thread_join(c->h);
        if (rv != (int)c->o->a) violation("join-value", "nested join returned %d, thread ended with %d", rv, (int)c->o->a);
      }
      thread_destroy(c->h);
      if (!c->done) violation("destroy-early", "thread_destroy returned before the thread ended");
    } else if (c->ran)
      violation("create-failed-but-ran", "thread_create returned NULL but the thread ran");
  }
  drv_write(r->result, (long)o.a * 3 + 1);
  r->ids->erase(r->id);
  r->done = true;
  if (o.b == 1) thread_exit((int)o.a);
  if (o.b == 2) life_deep(5, (int)o.a);
  return (int)o.a;
}
static void run_life(const Plan &p) {
  static const std::string longest(300, 'n');
  static const char *const names[] = {nullptr, "worker", "", "a thread name that is far too long for the kernel", "fifteen letters", "sixteen letters!", "%s %n \n", longest.c_str()};
  static const int stacks[] = {0, 65536, 1 << 20, 4096, 16384, 16385, 100000, 8 << 20, 1, 16383, 20480, 65537, (8 << 20) + 1, 64 << 20, 1 << 30, 131072};
  std::vector<LifeRec *> rec;
  std::multiset<void *> ids;
  ids.insert(thread_current_thread_id());
  int created_ok = 0, order = 0;
  std::vector<std::pair<int, LifeRec *>> reap;
  int budget = p.cfg[2] ? INT_MAX : 12;
  u64 live0 = heap_live_blocks();
  auto reap_one = [&](LifeRec *r) {
    const Op &o = *r->o;
    if (o.c & 16) {
      int rv = thread_join(r->h);
      log("join = %d", rv);
      if (rv != (int)o.a) violation("join-value", "join returned %d, the thread ended with %d", rv, (int)o.a);
      if (!r->done) violation("join-early", "thread_join returned before the thread ended");
      if (drv_read(r->result) != (long)o.a * 3 + 1) violation("join-not-visible", "the thread's writes are not visible after join");
      r->joined = true;
      SIM_PROBE("thread: joined then destroyed");
    }
  };
  auto destroy_one = [&](LifeRec *r) {
    thread_destroy(r->h);
    if (!r->done) violation("destroy-early", "thread_destroy returned before the thread ended");
    if (drv_read(r->result) != (long)r->o->a * 3 + 1) violation("destroy-not-visible", "the thread's writes are not visible after destroy");
    if (r->ran != 1) violation("thread-ran-wrong", "thread procedure ran %d times", r->ran);
  };
  for (const Op &o : p.ops) {
    LifeRec *r = new LifeRec();
    memset((void *)r, 0, sizeof *r);
    r->o = &o;
    r->ids = &ids;
    r->result = (long *)heap_alloc(sizeof(long));
    if (o.c & 64 && budget > 4) {
      LifeRec *c = new LifeRec();
      memset((void *)c, 0, sizeof *c);
      Op *co = new Op(o);
      co->c = o.c & 0xBF & ~64;
      co->a = (i64)(int)(o.a ^ 0x55);
      c->o = co;
      c->ids = &ids;
      c->result = (long *)heap_alloc(sizeof(long));
      r->child = c;
      budget--;
    }
    if (budget-- <= 0) break;
    int stk = stacks[(o.c >> 2 & 3) | (o.c >> 8 & 3) << 2];
    u32 f0 = fired(K_THREADFAIL) + fired(K_ALLOC);
    set_faults_armed(true);
    // the name is the caller's: its memory is used for something else as soon as thread_create has returned
    const char *nm = names[(o.c & 3) | (o.c >> 11 & 1) << 2];
    char *name = nm ? (char *)heap_alloc(strlen(nm) + 1) : nullptr;
    if (name) memcpy((void *)name, nm, strlen(nm) + 1);
    r->h = thread_create(life_proc, r, name, stk);
    set_faults_armed(false);
    if (name) {
      memset((void *)name, '?', strlen(nm));
      heap_free(name);
    }
    log("thread_create -> %s", r->h ? "ok" : "NULL");
    rec.push_back(r);
    if (!r->h) {
      SIM_PROBE("thread: creation failed");
      if (fired(K_THREADFAIL) + fired(K_ALLOC) == f0) violation("create-failed", "thread_create returned NULL though nothing failed");
    } else {
      created_ok++;
      reap.push_back({o.code, r});
    }
    if (p.cfg[2] && (i64)reap.size() > p.cfg[2]) {
      size_t i = (size_t)o.code % reap.size();
      LifeRec *q = reap[i].second;
      reap.erase(reap.begin() + i);
      if (!q->joined) reap_one(q);
      destroy_one(q);
      SIM_PROBE("thread: one of a long succession destroyed");
      continue;
    }
    // some threads are reaped while later ones are still being created
    if (!reap.empty() && p.cfg[1] == 1 && (++order & 1)) {
      LifeRec *q = reap.front().second;
      if (q->o->c & 16 && !q->joined) reap_one(q);  // joined now, destroyed later
    }
  }
  std::sort(reap.begin(), reap.end(), [](const std::pair<int, LifeRec *> &a, const std::pair<int, LifeRec *> &b) { return a.first < b.first; });
  for (auto &e : reap) {
    LifeRec *r = e.second;
    if (!r->joined) reap_one(r);
    if (p.cfg[1] != 2) destroy_one(r);
  }
  if (p.cfg[1] == 2)  // join everything first, destroy everything afterwards
    for (auto &e : reap) {
      thread_destroy(e.second->h);
      if (!e.second->done) violation("destroy-early", "thread_destroy returned before the thread ended");
    }
  for (LifeRec *r : rec) {
    if (r->h && r->ran != 1) violation("thread-ran-wrong", "thread procedure ran %d times", r->ran);
    if (r->h) {  // what this thread's creation asked the system for; 0 is the default of 8 MB
      int stk = stacks[(r->o->c >> 2 & 3) | (r->o->c >> 8 & 3) << 2];
      u64 got = r->stack;
      if (stk >= 16384 ? got < (u64)stk : got && got < (stk ? 16384u : 8u << 20))
        violation("stack-size-ignored", "a stack of %d bytes was requested; the system was asked for %llu", stk, (unsigned long long)got);
    }
    if (!r->h && r->ran) violation("create-failed-but-ran", "thread_create returned NULL but the procedure ran");
  }
  if (thread_count_live()) violation("thread-leak", "%u thread(s) still running after destroy", thread_count_live());
  if (sut_threads_unreaped()) violation("thread-leak", "%d thread(s) never joined or detached after destroy", sut_threads_unreaped());
  if (heap_live_blocks() > live0) violation("leak", "memory still held after every thread was destroyed");
  note_trivial(created_ok == 0);
  for (LifeRec *r : rec) {
    if (r->child) {
      delete r->child->o;
      delete r->child;
    }
    delete r;
  }
}
static std::string show_life(const Plan &, const Op &o) {
  return fmt("thread(exit %lld via %s%s%s%s%s)", (long long)o.a, o.b == 0 ? "return" : o.b == 1 ? "thread_exit" : "nested thread_exit",
             o.c & 16 ? ", join" : "", o.c & 32 ? ", sleeps" : "", o.c & 64 ? ", nested thread" : "", o.c & 128 ? ", prio" : "");
}
static Register r_life({"thread_life", "P07", "create/join/exit/destroy of overlapping and nested threads under creation failures",
                        bit(K_THREADFAIL) | bit(K_SETPRIO) | bit(K_EINTR) | bit(K_LATE) | bit(K_ALLOC) | SF_STALL, 20000, gen_life, run_life,
                        show_life});

// ============================================================ P08: timers
static void gen_timer(Rng &r, Plan &p) {
  int n = 1 + (int)r.below(3);
  p.cfg = {(i64)r.next() & 0xffff, n};
  int k = 1 + (int)r.below(6);
  if (r.below(300) == 0) k = 20 + (int)r.below(400);
  static const i64 ns[] = {0, 1, 999, 1000, 999999, 1000000, 999999999, 1000000000, 1000000001, 1999999999, 2000000000, 2147483647, 2147483648ll, 4294967295ll, 4294967296ll, 5000000001ll, 3600000000000ll, 123456789012345ll};
  for (int i = 0; i < k; i++) {
    Op o;
    o.thr = (int)r.below(n);
    o.a = r.below(2) ? r.pick(ns) : (i64)(r.next() >> (20 + r.below(30)));
    p.ops.push_back(o);
  }
}
static void timer_client(void *v) {
  Cl *c = (Cl *)v;
  const Plan *p = (const Plan *)c->ctx;
  thread_timer_t *t = (thread_timer_t *)heap_alloc(sizeof(thread_timer_t));
  thread_timer_init(t);
  for (const Op &o : p->ops) {
    if (o.thr != c->thr) continue;
    i64 t0 = mono_now(), s0 = stall_total();
    u32 e0 = fired(K_EINTR);
    thread_timer_wait(t, (THREAD_U64)o.a);
    i64 el = mono_now() - t0, st = stall_total() - s0 + stall_overlap(t0);
    log("timer_wait(%lld ns) took %lld ns", (long long)o.a, (long long)el);
    if (fired(K_EINTR) > e0) SIM_PROBE("timer: sleep was interrupted");
    if (el < o.a) violation("timer-early", "timer_wait(%lld ns) returned after %lld ns", (long long)o.a, (long long)el);
    if (el > o.a + SLACK + st)
      violation("timer-late", "timer_wait(%lld ns) returned after %lld ns (injected delays %lld ns)", (long long)o.a, (long long)el,
                (long long)st);
  }
  thread_timer_term(t);
  heap_free(t);
}
static void run_timer(const Plan &p) {
  int n = (int)p.cfg[1];
  Cl cl[8];
  int ids[8];
  for (int t = 0; t < n; t++) {
    cl[t] = {(void *)&p, t};
    ids[t] = spawn(timer_client, &cl[t], fmt("sleeper%d", t).c_str());
  }
  for (int t = 0; t < n; t++) join(ids[t]);
  note_trivial(p.ops.empty());
}
static std::string show_timer(const Plan &, const Op &o) { return fmt("timer_wait(%lld ns)", (long long)o.a); }
static Register r_timer({"timer_wait", "P08", "timer waits interrupted by signals, under stalls and clock steps",
                         bit(K_EINTR) | bit(K_LATE) | bit(K_TIMELAG) | SF_STALL | SF_CLOCK, 600000, gen_timer, run_timer, show_timer});

// ============================================================ P09: thread-local storage
enum { T_CREATE, T_SET, T_GET, T_DESTROY, T_OWN };
enum { TLS_MAX = 1040, TLS_THR = 8 };
static void gen_tls(Rng &r, Plan &p) {
  bool many = r.below(12) == 0;  // many threads and slots
  int n = 1 + (int)r.below(many ? TLS_THR - 1 : 4);
  i64 slots = many ? 4 + (i64)r.below(37) : 4, first = 1 + (i64)r.below((u64)slots);
  if (r.below(1000) == 0) {  // about as many as there can be
    slots = first = r.below(2) ? TLS_MAX : 41 + (i64)r.below(TLS_MAX - 40);
    n = 1 + (int)r.below(2);
  }
  p.cfg = {(i64)r.next() & 0xffff, n, first, slots};
  int k = 4 + (int)r.below(many ? 60 : 16);
  if (r.below(300) == 0) k = 100 + (int)r.below(900);
  u64 own = r.below(3) ? 0 : 3 + r.below(8);
  for (int i = 0; i < k; i++) {
    Op o;
    o.thr = (int)r.below(n + 1);
    o.code = o.thr == 0 && r.below(3) == 0 ? (r.below(2) ? T_CREATE : T_DESTROY) : r.below(2) ? T_SET : T_GET;
    o.a = (i64)r.below((u64)slots);
    if (o.thr && own && r.below(own) == 0) o.code = T_OWN;
    o.b = (i64)r.below(5) == 0 ? 0 : (i64)(r.next() >> 8);
    p.ops.push_back(o);
  }
}
struct TlsCtx {
  const Plan *p;
  int slots;
  thread_tls_t key[TLS_MAX];
  u32 gen[TLS_MAX];
  bool live[TLS_MAX];
  thread_tls_t own[TLS_THR];  // a slot that a client made for itself
};
static void tls_distinct(TlsCtx *x, thread_tls_t t) {
  for (int k = 0; k < x->slots; k++)
    if (x->live[k] && x->key[k] == t) violation("tls-alias", "two live slots have the same handle");
  for (thread_tls_t o : x->own)
    if (o && o == t) violation("tls-alias", "two live slots have the same handle");
}
static void tls_do(TlsCtx *x, const Op &o, i64 *mine, u32 *mgen, bool *busy) {
  int k = (int)o.a;
  (void)busy;
  if (!x->live[k]) return;
  i64 expect = mgen[k] == x->gen[k] ? mine[k] : 0;
  if (o.code == T_SET) {
    thread_tls_set(x->key[k], (void *)o.b);
    mine[k] = o.b;
    mgen[k] = x->gen[k];
    log("tls_set(k%d, %llx)", k, (unsigned long long)o.b);
  } else {
    void *v = thread_tls_get(x->key[k]);
    log("tls_get(k%d) = %llx", k, (unsigned long long)v);
    if ((i64)v != expect)
      violation("tls-value", "thread reads %p from slot %d, its own last value is %p", v, k, (void *)expect);
    if (expect) SIM_PROBE("tls: own non-null value read back");
  }
}
static thread_tls_t tls_make(TlsCtx *x) {
  u32 f0 = fired(K_TLSFAIL) + fired(K_ALLOC);
  set_faults_armed(true);
  thread_tls_t t = thread_tls_create();
  set_faults_armed(false);
  bool failed = fired(K_TLSFAIL) + fired(K_ALLOC) > f0;
  if (!failed && !t && sim_keys_exhausted()) {
    SIM_PROBE("tls: every slot of the system was in use");
    failed = true;
  }
  log("tls_create -> %p", t);
  if (failed) SIM_PROBE("tls: creation failed");
  if (!failed && !t) violation("tls-create-null", "thread_tls_create returned NULL although a slot was created");
  if (failed && t) violation("tls-create-bogus", "thread_tls_create returned a slot although creation failed");
  if (t) tls_distinct(x, t);
  return t;
}
static void tls_create(TlsCtx *x, int k) {
  thread_tls_t t = tls_make(x);
  if (t) {
    x->key[k] = t;
    x->gen[k]++;
    x->live[k] = true;
  }
}
// a client makes a slot of its own while the others run, uses it and destroys it
static void tls_own(TlsCtx *x, int thr, const Op &o) {
  u32 f0 = fired(K_TLSFAIL) + fired(K_ALLOC);
  thread_tls_t t = thread_tls_create();
  if (!t) {
    if (fired(K_TLSFAIL) + fired(K_ALLOC) == f0 && !sim_keys_exhausted()) violation("tls-create-null", "thread_tls_create returned NULL although nothing failed");
    return;
  }
  log("tls_create -> %p, for itself", t);
  tls_distinct(x, t);
  x->own[thr] = t;
  void *v = thread_tls_get(t);
  if (v) violation("tls-value", "a new slot reads %p", v);
  thread_tls_set(t, (void *)o.b);
  if (o.a & 1) sleep_ns(1000 * (1 + o.a));
  v = thread_tls_get(t);
  if ((i64)v != o.b) violation("tls-value", "thread reads %p from its own slot, its last value is %llx", v, (unsigned long long)o.b);
  x->own[thr] = nullptr;
  log("tls_destroy(%p)", t);
  thread_tls_destroy(t);
  SIM_PROBE("tls: a client made and destroyed a slot while others ran");
}
static void tls_client(void *v) {
  Cl *c = (Cl *)v;
  TlsCtx *x = (TlsCtx *)c->ctx;
  i64 mine[TLS_MAX] = {0};
  u32 mgen[TLS_MAX] = {0};
  for (const Op &o : x->p->ops)
    if (o.thr == c->thr) {
      if (o.code == T_OWN) tls_own(x, c->thr, o);
      else if (o.code == T_SET || o.code == T_GET) tls_do(x, o, mine, mgen, nullptr);
    }
  for (int k = 0; k < x->slots; k++) {
    Op g;
    g.code = T_GET;
    g.a = k;
    tls_do(x, g, mine, mgen, nullptr);
  }
}
static void run_tls(const Plan &p) {
  TlsCtx x;
  memset((void *)&x, 0, sizeof x);
  x.p = &p;
  x.slots = (int)p.cfg[3];
  int n = (int)p.cfg[1], nk = (int)p.cfg[2];
  i64 mine[TLS_MAX] = {0};
  u32 mgen[TLS_MAX] = {0};
  for (int k = 0; k < nk; k++) tls_create(&x, k);
  // two rounds of clients: the second must not see the first's values; the slots
  // may be destroyed and recreated in between
  for (int round = 0; round < 2; round++) {
    Cl cl[TLS_THR];
    int ids[TLS_THR];
    for (int t = 1; t <= n; t++) {
      cl[t] = {&x, t};
      ids[t] = spawn(tls_client, &cl[t], fmt("client%d", t).c_str());
    }
    for (const Op &o : p.ops)
      if (o.thr == 0 && (o.code == T_SET || o.code == T_GET)) tls_do(&x, o, mine, mgen, nullptr);
    for (int t = 1; t <= n; t++) join(ids[t]);
    for (const Op &o : p.ops)
      if (o.thr == 0) {
        int k = (int)o.a;
        if (o.code == T_DESTROY && x.live[k]) {
          thread_tls_destroy(x.key[k]);
          x.live[k] = false;
          log("tls_destroy(k%d)", k);
        } else if (o.code == T_CREATE && !x.live[k])
          tls_create(&x, k);
      }
    for (int k = 0; k < x.slots; k++) {
      Op g;
      g.code = T_GET;
      g.a = k;
      tls_do(&x, g, mine, mgen, nullptr);
    }
  }
  // distinct live slots never alias
  for (int a = 0; a < x.slots; a++)
    for (int b = a + 1; b < x.slots; b++)
      if (x.live[a] && x.live[b] && x.key[a] == x.key[b]) violation("tls-alias", "two live slots have the same handle");
  for (int k = 0; k < x.slots; k++)
    if (x.live[k]) thread_tls_destroy(x.key[k]);
  if (heap_live_blocks()) violation("leak", "memory still held after every slot was destroyed");
  note_trivial(p.ops.empty());
}
static std::string show_tls(const Plan &, const Op &o) {
  static const char *const n[] = {"create", "set", "get", "destroy", "own"};
  return fmt("tls_%s(k%lld%s)", n[o.code], (long long)o.a, o.code == T_SET ? fmt(", %llx", (unsigned long long)o.b).c_str() : "");
}
static Register r_tls({"tls_isolation", "P09", "per-thread slots across threads, destroy/recreate and creation failures",
                       bit(K_TLSFAIL) | bit(K_ALLOC), 400000, gen_tls, run_tls, show_tls});

// ============================================================ P19: hardware_concurrency, inert handle
static void gen_hw(Rng &r, Plan &p) {
  p.cfg = {(i64)r.next() & 0xffff};
  int k = 1 + (int)r.below(6);
  if (r.below(300) == 0) k = 20 + (int)r.below(400);
  static const i64 np[] = {1, 2, 3, 4, 8, 64, 255, 256, 257, 1024, 65536, 100000};
  for (int i = 0; i < k; i++) {
    Op o;
    o.thr = (int)r.below(3);
    o.code = (int)r.below(2);
    o.a = r.pick(np);
    p.ops.push_back(o);
  }
}
static i64 hw_n;
static int hw_users;
static void hw_client(void *v) {
  Cl *c = (Cl *)v;
  const Plan *p = (const Plan *)c->ctx;
  for (const Op &o : p->ops) {
    if (o.thr != c->thr) continue;
    if (o.code == 1) {
      int r = drv_cppthread_inert();
      if (r) violation("inert-thread", "a default-constructed thread handle reported state %d", r);
      continue;
    }
    u32 f0 = fired(K_SYSCONF);
    int n = drv_hw_concurrency();
    bool failed = fired(K_SYSCONF) > f0;
    log("hardware_concurrency = %d", n);
    if (failed) SIM_PROBE("hardware_concurrency: query failed");
    if (n != hw_n && !(n == 0 && failed) )
      violation("hw-concurrency", "hardware_concurrency() = %d with %lld processors online%s", n, (long long)hw_n, failed ? " (query failed)" : "");
  }
}
static void run_hw(const Plan &p) {
  hw_n = p.ops.empty() ? 4 : p.ops[0].a;
  sim_set_nproc(hw_n);
  Cl cl[3];
  int ids[3];
  for (int t = 0; t < 3; t++) {
    cl[t] = {(void *)&p, t};
    ids[t] = spawn(hw_client, &cl[t], "client");
  }
  for (int t = 0; t < 3; t++) join(ids[t]);
  note_trivial(p.ops.empty());
}
static std::string show_hw(const Plan &, const Op &o) { return o.code ? "thread{}; joinable; join; destroy" : "hardware_concurrency()"; }
static Register r_hw({"hw_concurrency", "P19", "processor count with failing queries; inert thread handles",
                      bit(K_SYSCONF), 100000, gen_hw, run_hw, show_hw});
