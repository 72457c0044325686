// Search, gate, minimise and replay.
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <fstream>
#include <map>
#include <sstream>
#include <unordered_set>

#include "sim.h"

using namespace sim;

static double real_now() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

static const Scenario *find_scn(const std::string &n) {
  for (auto &s : scenarios())
    if (n == s.name) return &s;
  fprintf(stderr, "HARNESS-ERROR: no scenario %s\n", n.c_str());
  exit(3);
}
static u64 str_id(const char *s) {
  u64 h = 1469598103934665603ull;
  for (; *s; s++) h = (h ^ (u8)*s) * 1099511628211ull;
  return h;
}
static u64 run_seed(u64 seed, const Scenario *s, u64 i) { return mix(mix(seed, str_id(s->name)), i); }

// ------------------------------------------------------------------ replay file
static void write_replay(const std::string &path, const RunInput &in, const RunResult &r, u64 vseed, u64 index,
                         const std::string &extra) {
  std::ofstream o(path);
  o << "nanostl-dst-replay 1\n";
  o << "scenario " << in.scn->name << "\n";
  o << "property " << in.scn->property << "\n";
  o << "found-by VERIF_SEED=" << vseed << " run=" << index << "\n";
  o << "class " << r.cls << "\n";
  o << "message " << r.msg << "\n";
  o << "hash " << r.hash << "\n";
  o << "cfg";
  for (i64 v : in.plan.cfg) o << " " << v;
  o << "\n";
  for (auto &p : in.plan.ops) {
    o << "op " << p.code << " " << p.thr << " " << p.a << " " << p.b << " " << p.c;
    if (in.scn->show) o << "   # " << in.scn->show(in.plan, p);
    o << "\n";
  }
  for (auto &e : in.sched)
    o << "sched " << (int)e.fiber << " " << e.lstep << " " << (int)e.kind << " " << e.arg << "   # "
      << skind_name[e.kind] << " at T" << (int)e.fiber << "'s point " << e.lstep << "\n";
  for (auto &e : in.choices)
    o << "choice " << (int)e.kind << " " << (int)e.fiber << " " << e.idx << " " << e.val << "   # "
      << kind_name[e.kind] << " in T" << (int)e.fiber << ", occasion " << e.idx << "\n";
  o << extra;
  o << "end\n";
}

static bool read_replay(const std::string &path, RunInput &in, RunResult &expect) {
  std::ifstream f(path);
  if (!f) return false;
  std::string line;
  bool ended = false;
  while (std::getline(f, line)) {
    std::string full = line;
    size_t h = line.find("   # ");
    if (h != std::string::npos) line = line.substr(0, h);
    std::istringstream is(line);
    std::string k;
    is >> k;
    if (k == "scenario") {
      std::string n;
      is >> n;
      in.scn = find_scn(n);
    } else if (k == "class") {
      std::string c;
      is >> c;
      snprintf(expect.cls, sizeof expect.cls, "%s", c.c_str());
    } else if (k == "message") {
      snprintf(expect.msg, sizeof expect.msg, "%s", full.size() > 8 ? full.c_str() + 8 : "");
    } else if (k == "hash") {
      is >> expect.hash;
    } else if (k == "cfg") {
      i64 v;
      while (is >> v) in.plan.cfg.push_back(v);
    } else if (k == "op") {
      Op p;
      is >> p.code >> p.thr >> p.a >> p.b >> p.c;
      in.plan.ops.push_back(p);
    } else if (k == "sched") {
      int a, b;
      SchedEnt e;
      is >> a >> e.lstep >> b >> e.arg;
      e.fiber = (u8)a;
      e.kind = (u8)b;
      in.sched.push_back(e);
    } else if (k == "choice") {
      int a, b;
      ChoiceEnt e;
      is >> a >> b >> e.idx >> e.val;
      e.kind = (u8)a;
      e.fiber = (u8)b;
      in.choices.push_back(e);
    } else if (k == "end")
      ended = true;
  }
  in.replay = true;
  return ended && in.scn;
}

// ------------------------------------- execute a candidate in a child process
struct Brief {
  bool ok, violated;
  char cls[64];
  char msg[1024];
  u64 hash;
};
static Brief *shared_brief() {
  static Brief *b = nullptr;
  if (!b)
    b = (Brief *)mmap(nullptr, sizeof(Brief), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  return b;
}
static Brief run_child(const RunInput &in) {
  Brief *b = shared_brief();
  memset(b, 0, sizeof *b);
  fflush(nullptr);
  pid_t p = fork();
  if (p == 0) {
    RunResult r;
    execute(in, r);
    b->violated = r.violated;
    memcpy(b->cls, r.cls, sizeof b->cls);
    memcpy(b->msg, r.msg, sizeof b->msg);
    b->hash = r.hash;
    b->ok = true;
    _exit(0);
  }
  int st = 0;
  waitpid(p, &st, 0);
  if (!b->ok) {
    // the process died: treat as a crash violation class of its own
    b->violated = true;
    snprintf(b->cls, sizeof b->cls, "process-death");
    snprintf(b->msg, sizeof b->msg, "simulated process died (status %d)", st);
  }
  return *b;
}

// ------------------------------------------------------------------ minimiser
struct Minimiser {
  RunInput best;
  std::string cls;
  int tries = 0;
  double t_end;
  bool test(const RunInput &c) {
    if (tries > 4000 || real_now() > t_end) return false;
    tries++;
    Brief b = run_child(c);
    return b.violated && cls == b.cls;
  }
  template <class T>
  bool ddmin(std::vector<T> RunInput::*mem) {
    bool any = false;
    size_t n = 1;
    // first try removing everything
    {
      RunInput c = best;
      if ((c.*mem).empty()) return false;
      (c.*mem).clear();
      if (test(c)) {
        best = c;
        return true;
      }
    }
    n = 2;
    while ((best.*mem).size() >= 1) {
      std::vector<T> cur = best.*mem;
      size_t sz = cur.size(), chunk = (sz + n - 1) / n;
      bool red = false;
      for (size_t s = 0; s < sz; s += chunk) {
        RunInput c = best;
        auto &v = c.*mem;
        v.assign(cur.begin(), cur.begin() + s);
        v.insert(v.end(), cur.begin() + std::min(sz, s + chunk), cur.end());
        if (test(c)) {
          best = c;
          red = any = true;
          n = std::max<size_t>(2, n - 1);
          break;
        }
      }
      if (!red) {
        if (chunk <= 1) break;
        n = std::min(sz, n * 2);
      }
    }
    return any;
  }
  bool ops() {
    bool any = false;
    size_t n = 2;
    while (best.plan.ops.size() >= 1) {
      std::vector<Op> cur = best.plan.ops;
      size_t sz = cur.size(), chunk = (sz + n - 1) / n;
      bool red = false;
      for (size_t s = 0; s < sz; s += chunk) {
        RunInput c = best;
        c.plan.ops.assign(cur.begin(), cur.begin() + s);
        c.plan.ops.insert(c.plan.ops.end(), cur.begin() + std::min(sz, s + chunk), cur.end());
        if (test(c)) {
          best = c;
          red = any = true;
          n = std::max<size_t>(2, n - 1);
          break;
        }
      }
      if (!red) {
        if (chunk <= 1) break;
        n = std::min(sz, n * 2);
      }
    }
    return any;
  }
  bool args() {
    bool any = false;
    for (size_t i = 0; i < best.plan.ops.size(); i++)
      for (int w = 0; w < 3; w++) {
        i64 Op::*m = w == 0 ? &Op::a : w == 1 ? &Op::b : &Op::c;
        i64 v = best.plan.ops[i].*m;
        i64 cand[3] = {0, 1, v / 2};
        for (i64 x : cand) {
          if (x == v || (v >= 0 && x > v)) continue;
          RunInput c = best;
          c.plan.ops[i].*m = x;
          if (test(c)) {
            best = c;
            any = true;
            break;
          }
        }
      }
    return any;
  }
  void run() {
    for (int round = 0; round < 6; round++) {
      bool a = false;
      a |= ops();
      a |= ddmin(&RunInput::sched);
      a |= ddmin(&RunInput::choices);
      a |= args();
      if (!a) break;
    }
  }
};

// -------------------------------------------------------------------- workers
struct WStats {
  u64 runs, nontrivial, steps, switches, healed, nviol, abandoned;
  double simtime;
  u64 fired[K_NKINDS], runs_with[K_NKINDS], sfired[S_NKINDS], runs_with_s[S_NKINDS];
  u64 strat[4], strat_sync;
  u64 stalls;
  u64 det_checked, det_bad;
  u64 probes[MAXPROBES];
  const char *pname[MAXPROBES];
  u64 stubs[256];
  const char *sname[256];
  u64 maxthreads;
  u64 nhash;
  u64 faultfree;
};
struct Shared {
  volatile u64 best;  // lowest violating index so far
  volatile int err;
  WStats w[64];
};

static void worker(Shared *sh, int w, int nw, const Scenario *s, u64 seed, u64 runs, double deadline,
                   u64 *hashes, u64 hcap) {
  WStats &st = sh->w[w];
  std::unordered_set<u64> seen;
  seen.reserve(1 << 16);
  memset(probe_hits, 0, sizeof probe_hits);
  memset(stub_hits, 0, 256 * sizeof(u64));
  for (u64 i = w; i < runs; i += nw) {
    if (i >= sh->best) break;
    if (((i / nw) & 63) == 0 && real_now() > deadline) break;
    RunInput in;
    in.scn = s;
    in.seed = run_seed(seed, s, i);
    RunResult r;
    execute(in, r);
    st.runs++;
    st.steps += r.steps;
    st.simtime += (double)r.simtime;
    st.switches += r.switches;
    st.healed += r.healed;
    st.abandoned += r.abandoned;
    st.strat[r.strategy]++;
    bool anyf = false;
    for (int k = 0; k < K_NKINDS; k++) {
      st.fired[k] += r.fired[k];
      st.runs_with[k] += r.fired[k] > 0;
      if (k != K_PICK && k != K_WAKE && r.fired[k]) anyf = true;
    }
    for (int k = 0; k < S_NKINDS; k++) {
      st.sfired[k] += r.sfired[k];
      st.runs_with_s[k] += r.sfired[k] > 0;
      if (k != S_SWITCH && r.sfired[k]) anyf = true;
    }
    if (!anyf) st.faultfree++;
    if (r.nfibers > st.maxthreads) st.maxthreads = r.nfibers;
    if (!r.trivial) {
      st.nontrivial++;
      if (seen.size() < hcap) seen.insert(r.ihash);
    }
    if (r.violated) {
      st.nviol++;
      u64 b;
      while (i < (b = sh->best) && !__sync_bool_compare_and_swap(&sh->best, b, i)) {
      }
      break;
    }
    if (((i / nw) % 400) == 7) {
      RunResult r2;
      execute(in, r2);
      st.det_checked++;
      if (r2.hash != r.hash) st.det_bad++;
    }
  }
  memcpy(st.probes, probe_hits, sizeof st.probes);
  memcpy(st.stubs, stub_hits, sizeof st.stubs);
  for (int i = 0; i < probe_count; i++) st.pname[i] = probe_names[i];
  for (int i = 0; i < stub_count(); i++) st.sname[i] = stub_names[i];
  u64 n = 0;
  for (u64 h : seen) hashes[n++] = h;
  st.nhash = n;
}

static std::string jesc(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c == '\n')
      o += "\\n";
    else if (c < 32)
      o += ' ';
    else
      o += c;
  }
  return o;
}

static int usage() {
  fprintf(stderr,
          "simrun --list | --search SCN --runs N --seed S [--workers W] [--cap SEC] --stats F --replay-out F\n"
          "       | --replay F [--trace] | --hash SCN --seed S --from I --count N\n");
  return 3;
}

static std::string show_plan(const Scenario *s, const Plan &p) {
  std::string o;
  size_t n = 0;
  for (auto &op : p.ops) {
    if (n++ >= 24) {
      o += " ...";
      break;
    }
    char b[128];
    if (s->show)
      snprintf(b, sizeof b, "%sT%d:%s", o.empty() ? "" : "; ", op.thr, s->show(p, op).c_str());
    else
      snprintf(b, sizeof b, "%sT%d:%d(%lld,%lld,%lld)", o.empty() ? "" : "; ", op.thr, op.code, (long long)op.a,
               (long long)op.b, (long long)op.c);
    o += b;
  }
  return o;
}

int main(int argc, char **argv) {
  std::string mode, scn, stats, rep, ro, group;
  u64 seed = 1, runs = 1000, from = 0, count = 1, one = ~0ull;
  int workers = 8;
  double cap = 120;
  bool trace = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--list") mode = "list";
    else if (a == "--search") mode = "search", scn = nx();
    else if (a == "--replay") mode = "replay", rep = nx();
    else if (a == "--hash") mode = "hash", scn = nx();
    else if (a == "--one") mode = "one", scn = nx(), one = strtoull(nx().c_str(), 0, 10);
    else if (a == "--runs") runs = strtoull(nx().c_str(), 0, 10);
    else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10);
    else if (a == "--workers") workers = atoi(nx().c_str());
    else if (a == "--cap") cap = atof(nx().c_str());
    else if (a == "--stats") stats = nx();
    else if (a == "--replay-out") ro = nx();
    else if (a == "--group") group = nx();
    else if (a == "--trace") trace = true;
    else if (a == "--from") from = strtoull(nx().c_str(), 0, 10);
    else if (a == "--count") count = strtoull(nx().c_str(), 0, 10);
    else return usage();
  }
  if (mode == "list") {
    for (auto &s : scenarios()) printf("%s %s %s\n", s.property, s.name, s.what);
    return 0;
  }
  // the same addresses in every process, where the system allows it
  int pers = personality(0xffffffff);
  if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC")) {
    setenv("SIM_REEXEC", "1", 1);
    if (personality(pers | ADDR_NO_RANDOMIZE) >= 0) execv("/proc/self/exe", argv);
  }
  unsetenv("SIM_REEXEC");
  init_process();
  if (mode == "hash") {
    const Scenario *s = find_scn(scn);
    for (u64 i = from; i < from + count; i++) {
      RunInput in;
      in.scn = s;
      in.seed = run_seed(seed, s, i);
      RunResult r;
      execute(in, r);
      printf("%llu %016llx %016llx %llu %s\n", (unsigned long long)i, (unsigned long long)r.hash,
             (unsigned long long)r.ihash, (unsigned long long)r.steps, r.violated ? r.cls : "-");
      if (r.violated) break;
    }
    return 0;
  }
  if (mode == "one") {
    const Scenario *s = find_scn(scn);
    RunInput in;
    in.scn = s;
    in.seed = run_seed(seed, s, one);
    in.trace = trace;
    RunResult r;
    execute(in, r);
    printf("%s", r.log.c_str());
    printf("plan: %s\n", show_plan(s, r.plan).c_str());
    printf("strategy %s steps %llu switches %u sched %zu choices %zu hash %016llx %s %s\n", strategy_name(r.strategy),
           (unsigned long long)r.steps, r.switches, r.sched.size(), r.choices.size(), (unsigned long long)r.hash,
           r.violated ? r.cls : "ok", r.msg);
    return 0;
  }
  if (mode == "replay") {
    RunInput in;
    RunResult ex;
    if (!read_replay(rep, in, ex)) {
      fprintf(stderr, "HARNESS-ERROR: cannot read replay %s\n", rep.c_str());
      return 3;
    }
    in.trace = trace;
    RunResult r;
    execute(in, r);
    if (trace) printf("%s", r.log.c_str());
    printf("replay %s: class=%s hash=%llu\n%s\n", r.violated ? "VIOLATED" : "no-violation",
           r.violated ? r.cls : "-", (unsigned long long)r.hash, r.msg);
    if (!r.violated) return 0;
    return (!strcmp(r.cls, ex.cls) && r.hash == ex.hash) ? 1 : 2;
  }
  if (mode != "search") return usage();
  const Scenario *s = find_scn(scn);
  if (workers < 1) workers = 1;
  if (workers > 64) workers = 64;
  Shared *sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  sh->best = ~0ull;
  u64 hcap = 2000000;
  u64 *hashes = (u64 *)mmap(nullptr, workers * hcap * 8, PROT_READ | PROT_WRITE,
                            MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  double t0 = real_now();
  std::vector<pid_t> pids;
  fflush(nullptr);
  for (int w = 0; w < workers; w++) {
    pid_t p = fork();
    if (p == 0) {
      worker(sh, w, workers, s, seed, runs, t0 + cap, hashes + w * hcap, hcap);
      _exit(0);
    }
    pids.push_back(p);
  }
  bool crashed = false;
  for (size_t w = 0; w < pids.size(); w++) {
    int st;
    waitpid(pids[w], &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st)) {
      crashed = true;
      fprintf(stderr, "worker %zu ended with status %d after %llu runs\n", w, st,
              (unsigned long long)sh->w[w].runs);
    }
  }
  double wall = real_now() - t0;
  WStats T;
  memset(&T, 0, sizeof T);
  std::vector<u64> all;
  std::map<std::string, u64> mprobes, mstubs;
  for (int w = 0; w < workers; w++) {
    WStats &a = sh->w[w];
    T.runs += a.runs;
    T.nontrivial += a.nontrivial;
    T.abandoned += a.abandoned;
    T.steps += a.steps;
    T.switches += a.switches;
    T.healed += a.healed;
    T.simtime += a.simtime;
    T.det_checked += a.det_checked;
    T.det_bad += a.det_bad;
    T.faultfree += a.faultfree;
    for (int k = 0; k < K_NKINDS; k++) T.fired[k] += a.fired[k], T.runs_with[k] += a.runs_with[k];
    for (int k = 0; k < S_NKINDS; k++) T.sfired[k] += a.sfired[k], T.runs_with_s[k] += a.runs_with_s[k];
    for (int k = 0; k < 4; k++) T.strat[k] += a.strat[k];
    for (int k = 0; k < MAXPROBES; k++)
      if (a.pname[k]) mprobes[a.pname[k]] += a.probes[k];
    for (int k = 0; k < 256; k++)
      if (a.sname[k]) mstubs[a.sname[k]] += a.stubs[k];
    if (a.maxthreads > T.maxthreads) T.maxthreads = a.maxthreads;
    all.insert(all.end(), hashes + w * hcap, hashes + w * hcap + a.nhash);
  }
  std::sort(all.begin(), all.end());
  all.erase(std::unique(all.begin(), all.end()), all.end());
  int rc = 0;
  std::string vjson = "null";
  RunResult sampler;
  if (crashed && sh->best == ~0ull) {
    fprintf(stderr, "HARNESS-ERROR: a worker process died\n");
    rc = 3;
  }
  if (T.det_bad) {
    fprintf(stderr, "HARNESS-ERROR: %llu of %llu runs did not repeat exactly\n", (unsigned long long)T.det_bad,
            (unsigned long long)T.det_checked);
    rc = 3;
  }
  if (sh->best != ~0ull) {
    u64 idx = sh->best;
    RunInput in;
    in.scn = s;
    in.seed = run_seed(seed, s, idx);
    // Code that reads memory it never wrote need not behave the same twice even here
    // (what it reads may be a host address). The exact execution is preferred; failing
    // that, any recorded execution that still breaks the property counts, and says so.
    Brief a = run_child(in), b = run_child(in);
    bool exact = a.violated && b.violated && a.hash == b.hash && !strcmp(a.cls, b.cls);
    RunResult r;
    execute(in, r);  // this process is expendable from here on
    if (!r.violated) {
      fprintf(stderr, "HARNESS-ERROR: violation at run %llu does not repeat from its seed (%s/%s)\n",
              (unsigned long long)idx, a.cls, b.cls);
      rc = 3;
    } else {
      Minimiser m;
      m.best.scn = s;
      m.best.replay = true;
      m.best.plan = r.plan;
      m.best.sched = r.sched;
      m.best.choices = r.choices;
      m.cls = r.cls;
      m.t_end = real_now() + 40;
      RunInput whole = m.best;
      size_t o0 = r.plan.ops.size(), s0 = r.sched.size(), c0 = r.choices.size();
      Brief f1, f2;
      memset(&f1, 0, sizeof f1);
      if (m.test(m.best)) {
        m.run();
        f1 = run_child(m.best), f2 = run_child(m.best);
        if (!f1.violated || !f2.violated || f1.hash != f2.hash) exact = false;
      } else
        exact = false;
      if (!f1.violated) {
        m.best = whole;
        for (int t = 0; t < 8 && !f1.violated; t++) f1 = run_child(m.best);
      }
      if (!f1.violated) {
        fprintf(stderr, "HARNESS-ERROR: recorded execution of run %llu does not replay (%s)\n",
                (unsigned long long)idx, r.cls);
        rc = 3;
      } else {
        RunResult e;
        e.violated = true;
        memcpy(e.cls, f1.cls, sizeof e.cls);
        memcpy(e.msg, f1.msg, sizeof e.msg);
        e.hash = f1.hash;
        write_replay(ro, m.best, e, seed, idx, group.empty() ? "" : "group " + group + "\n");
        rc = 1;
        std::ostringstream o;
        o << "{\"run\": " << idx << ", \"class\": \"" << jesc(e.cls) << "\", \"message\": \"" << jesc(e.msg)
          << "\", \"exact\": " << (exact ? "true" : "false") << ", \"ops\": [" << o0 << ", " << m.best.plan.ops.size()
          << "], \"sched\": [" << s0 << ", " << m.best.sched.size() << "], \"choices\": [" << c0 << ", "
          << m.best.choices.size() << "], \"minimiser_executions\": " << m.tries << "}";
        vjson = o.str();
      }
    }
  }
  std::ostringstream o;
  o << "{\"scenario\": \"" << s->name << "\", \"property\": \"" << s->property << "\", \"what\": \"" << jesc(s->what)
    << "\", \"runs\": " << T.runs << ", \"requested\": " << runs << ", \"abandoned\": " << T.abandoned << ", \"nontrivial\": " << T.nontrivial
    << ", \"distinct\": " << all.size() << ", \"steps\": " << T.steps << ", \"switches\": " << T.switches
    << ", \"fault_free_runs\": " << T.faultfree << ", \"healed_runs\": " << T.healed
    << ", \"sim_seconds\": " << T.simtime / 1e9 << ", \"wall_s\": " << wall
    << ", \"runs_per_hour\": " << (u64)(T.runs / (wall > 0.001 ? wall : 0.001) * 3600)
    << ", \"repeat_checked\": " << T.det_checked << ", \"repeat_mismatches\": " << T.det_bad
    << ", \"max_threads\": " << T.maxthreads << ", \"workers\": " << workers;
  o << ", \"strategies\": {";
  for (int k = 0; k < 4; k++) o << (k ? ", " : "") << "\"" << strategy_name(k) << "\": " << T.strat[k];
  o << "}, \"faults\": {";
  bool first = true;
  for (int k = 0; k < K_NKINDS; k++)
    if ((s->faults & bit((Kind)k)) || T.fired[k]) {
      o << (first ? "" : ", ") << "\"" << kind_name[k] << "\": {\"fired\": " << T.fired[k]
        << ", \"runs\": " << T.runs_with[k] << "}";
      first = false;
    }
  for (int k = 0; k < S_NKINDS; k++) {
    o << (first ? "" : ", ") << "\"" << skind_name[k] << "\": {\"fired\": " << T.sfired[k]
      << ", \"runs\": " << T.runs_with_s[k] << "}";
    first = false;
  }
  o << "}, \"probes\": {";
  first = true;
  for (auto &k : mprobes) {
    o << (first ? "" : ", ") << "\"" << k.first << "\": " << k.second;
    first = false;
  }
  o << "}, \"stub_calls\": {";
  first = true;
  for (auto &k : mstubs) {
    o << (first ? "" : ", ") << "\"" << k.first << "\": " << k.second;
    first = false;
  }
  o << "}, \"samples\": [";
  if (rc == 0) {
    first = true;
    for (u64 i = 0; i < 3 && i < runs; i++) {
      RunInput in;
      in.scn = s;
      in.seed = run_seed(seed, s, i * 7 + 1);
      RunResult r;
      execute(in, r);
      o << (first ? "" : ", ") << "{\"run\": " << i * 7 + 1 << ", \"strategy\": \"" << strategy_name(r.strategy)
        << "\", \"steps\": " << r.steps << ", \"switches\": " << r.switches << ", \"faults\": " << r.choices.size()
        << ", \"plan\": \"" << jesc(show_plan(s, r.plan)) << "\"}";
      first = false;
    }
  }
  o << "], \"violation\": " << vjson << "}\n";
  if (!stats.empty()) {
    std::ofstream f(stats);
    f << o.str();
  } else
    printf("%s", o.str().c_str());
  return rc;
}
