// Deterministic simulator: public interface used by the scenarios (which must
// not include nanostl headers) and by the runner.
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>

namespace sim {
typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;
typedef uint8_t u8;

// ---------------------------------------------------------------- randomness
struct Rng {
  u64 s = 0;
  explicit Rng(u64 seed = 0) : s(seed) {}
  u64 next() {
    u64 z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  u64 below(u64 n) { return n ? (u64)(((unsigned __int128)next() * n) >> 64) : 0; }
  i64 range(i64 lo, i64 hi) { return lo + (i64)below((u64)(hi - lo + 1)); }
  bool chance(u32 num, u32 den) { return below(den) < num; }
  template <class T, size_t N>
  const T &pick(const T (&a)[N]) { return a[below(N)]; }
};
u64 mix(u64 a, u64 b);

// ------------------------------------------------------------------- choices
// Every nondeterministic decision outside scheduling. Value 0 is benign.
enum Kind : u8 {
  K_PICK,      // which runnable thread continues when the current one blocks
  K_WAKE,      // which waiter a condition-variable signal wakes
  K_SPURIOUS,  // spurious condition-variable wakeup
  K_EINTR,     // sleep interrupted by a signal
  K_LATE,      // a timed wait wakes late
  K_ALLOC,     // an allocation fails
  K_THREADFAIL,// thread creation fails (EAGAIN)
  K_TLSFAIL,   // TLS key creation fails
  K_SYSCONF,   // sysconf fails
  K_ELEM,      // an element constructor/assignment/comparison throws
  K_IO,        // output call fails
  K_REENTER,   // a callback re-enters the object
  K_SETPRIO,   // setname / setschedparam refused
  K_TIMELAG,   // time() lags behind the precise clock
  K_MISC,
  K_STALE,     // another thread does not yet see an atomic store that is not sequentially consistent
  K_NKINDS
};
extern const char *const kind_name[K_NKINDS];
// schedule event kinds
enum SKind : u8 { S_SWITCH, S_STALL, S_CLOCK, S_NKINDS };
extern const char *const skind_name[S_NKINDS];

struct SchedEnt { u8 fiber; u32 lstep; u8 kind; i64 arg; };
struct ChoiceEnt { u8 kind; u8 fiber; u32 idx; u64 val; };

struct Op {
  int code = 0;
  int thr = 0;
  i64 a = 0, b = 0, c = 0;
};
struct Plan {
  std::vector<i64> cfg;
  std::vector<Op> ops;
};

inline constexpr u32 bit(Kind k) { return 1u << (unsigned)k; }
enum : u32 {
  SF_STALL = 1u << 28,   // stalls allowed
  SF_CLOCK = 1u << 29,   // wall-clock steps allowed
  SF_NOPREEMPT = 1u << 30 // sequential scenario (single client): no preemption
};

struct Scenario {
  const char *name;
  const char *property;
  const char *what;                       // one-line description
  u32 faults;                             // mask of allowed fault kinds
  u32 max_steps;                          // steps before the heal phase
  void (*gen)(Rng &, Plan &);
  void (*run)(const Plan &);              // runs as client thread 0
  std::string (*show)(const Plan &, const Op &);  // optional
};
struct Register {
  explicit Register(const Scenario &s);
};
std::vector<Scenario> &scenarios();

// -------------------------------------------------------- services for a run
bool active();
u64 seq();                 // global event sequence number (also advances it)
i64 mono_now();            // simulated monotonic clock, ns
i64 wall_now();            // simulated wall clock, ns
u64 choose(Kind k, u64 nalts);           // 0 = benign, else 1..nalts
// ends the run without a verdict
[[noreturn]] void abandon(const char *why);
[[noreturn]] void violation(const char *cls, const char *fmt, ...)
    __attribute__((format(printf, 2, 3)));
void log(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
bool tracing();
void harness_error(const char *fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
void hash_in(u64 v);       // fold an observation into the run hash
void note_trivial(bool t); // tell the runner this run did nothing interesting

// client threads (the "nodes": threads of the program using the library)
int spawn(void (*fn)(void *), void *arg, const char *name);
void join(int id);
int self();
void yield_point();                      // an extra scheduling point
void sleep_ns(i64 ns);                   // client think time
bool had_stall();                        // a stall was injected in this run
bool had_clockstep();
i64 stall_total();                       // total injected late-wakeup time (ns)
i64 stall_overlap(i64 t0);               // time since t0 during which some thread was stalled
bool healing();
bool force_fault_free();                 // scenario asks
void set_faults_armed(bool on);          // allocation/element faults for this thread
bool faults_armed();
struct Armed { Armed() { set_faults_armed(true); } ~Armed() { set_faults_armed(false); } };

// memory from the simulated heap (so that the library's accesses are checked)
void *heap_alloc(size_t n, size_t align = 16);
void heap_free(void *p);
u64 heap_live_blocks();                  // live blocks allocated by code under test
u64 heap_live_all();
u64 heap_sut_bytes();                    // all that code under test allocated in this run
void heap_check_leaks(const char *cls);
bool heap_is_live(const void *p, size_t n);
u32 fired(Kind k);                       // faults fired so far in this run
u32 thread_count_live();                 // created by the code under test, not finished

// pthread-level observations
struct ThreadObs { u64 stack_size; bool detached; bool joined; bool finished; };
int sut_threads_created();
int sut_threads_unreaped();

// probes: "this rare condition was reached" counters
struct Probe {
  int id;
  explicit Probe(const char *name);
  void hit();
};
#define SIM_PROBE(name)                     \
  do {                                      \
    static sim::Probe p_(name);             \
    p_.hit();                               \
  } while (0)

// ------------------------------------------------------------- runner access
struct RunInput {
  const Scenario *scn = nullptr;
  u64 seed = 0;           // search mode
  bool replay = false;    // replay mode: plan, sched, choices explicit
  Plan plan;
  std::vector<SchedEnt> sched;
  std::vector<ChoiceEnt> choices;
  bool trace = false;
};
struct RunResult {
  bool violated = false;
  char cls[64] = {0};
  char msg[1024] = {0};
  u64 hash = 0;       // full event hash
  u64 ihash = 0;      // interleaving / fault-sequence hash
  u64 steps = 0;
  i64 simtime = 0;
  u32 switches = 0;
  u32 fired[K_NKINDS] = {0};
  u32 sfired[S_NKINDS] = {0};
  u32 nfibers = 0;
  bool trivial = false;
  bool healed = false;
  bool abandoned = false;  // ended without a verdict: the simulator ran out of something
  int strategy = 0;
  Plan plan;
  std::vector<SchedEnt> sched;
  std::vector<ChoiceEnt> choices;
  std::string log;
};
void execute(const RunInput &in, RunResult &out);
void init_process();
const char *strategy_name(int s);
enum { MAXPROBES = 256 };
extern const char *probe_names[MAXPROBES];
extern u64 probe_hits[MAXPROBES];
extern int probe_count;
extern u64 stub_hits[];      // by stub id
extern const char *stub_names[];
int stub_count();
}  // namespace sim

// C interface for driver translation units (compiled with nanostl headers).
extern "C" {
unsigned long sim_c_choose(int kind, unsigned long nalts);
void sim_c_violation(const char *cls, const char *msg) __attribute__((noreturn));
void sim_c_point(void);
}
