def Q(over, text):
    return {"over": over, "text": text}


def A(files, mech, observe, state=(), hook=None):
    return {"files": files, "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
            "mechanism": [dict(name=n, where=w) for n, w in mech], "observe_at": observe, "hook_needed": hook}


LT = "src/libs_thread.h"
SEED = ("Seeded search: random interleavings (random preemption, PCT priorities, synchronisation-point schedules) of "
        "generated client programs with the listed faults, against an executable model; holds for what was executed. "
        "Trusts the simulated POSIX layer. ")

PROPS = [
 dict(id="P01", title="Atomic ints and pointers are linearizable and publish memory",
  statement="Under every interleaving, atomic load, store, increment, decrement, add, subtract, swap and compare-and-swap on "
   "an atomic int or pointer take effect one at a time, in an order consistent with real time, each returning the value "
   "held just before it; int arithmetic wraps at the width of int and a store or swap leaves exactly the value it was given. "
   "A thread that observes a value set by another thread's atomic operation also sees every ordinary write that thread made before it.",
  quantifier=Q(["schedules", "inputs", "histories"], "all interleavings of any number of threads and operations, all int and pointer values"),
  why_tests_cant="No existing test touches the thread layer at all; a lost update, a torn read-modify-write or a missing ordering shows only in particular interleavings.",
  anchors=A([LT], [("atomic int and pointer operations", LT + ": thread_atomic_*")], ["return values of the atomic operations", "plain data handed over through them"]),
  note=SEED + "Linearizability decided per history (Wing-Gong); publication decided by a happens-before race detector that honours each operation's memory order."),
 dict(id="P02", title="A mutex admits one thread at a time, makes progress and orders memory",
  statement="At most one thread at a time is between the lock and the unlock of the same mutex, and what is written inside one "
   "critical section is visible in every later one. While holders keep releasing it, every thread waiting for a mutex gets it; "
   "the mutex works again after it is terminated and initialised anew.",
  quantifier=Q(["schedules", "histories", "fault_sequences"], "all interleavings of threads over several mutexes, with stalls of lock holders and interrupted or late sleeps"),
  why_tests_cant="No existing test uses a mutex; exclusion and visibility are statements about all schedules.",
  anchors=A([LT], [("mutex operations", LT + ": thread_mutex_*")], ["code between lock and unlock"]),
  note=SEED + "Exclusion and lost updates checked in every critical section; races through happens-before; progress as completion within a bounded number of steps after faults stop."),
 dict(id="P03", title="A signal loses no raise and reports none that did not happen",
  statement="A signal behaves as one flag: a raise sets it, a wait that returns non-zero consumes it, and a wait that returns 0 "
   "leaves it alone. So no raise is lost (a wait that follows or overlaps an unconsumed raise is satisfied), raises before one wait count "
   "once, and no wait returns non-zero without a raise, whatever spurious wake-ups occur. What a thread wrote before a raise is visible after the wait it satisfies.",
  quantifier=Q(["schedules", "histories", "fault_sequences"], "all interleavings of a waiter with several raisers, all timeouts, spurious and late wake-ups, stalls"),
  why_tests_cant="No existing test uses signals; lost and phantom wake-ups depend on the interleaving and on spurious wake-ups a test cannot provoke.",
  anchors=A([LT], [("flag under a mutex with a condition variable", LT + ": thread_signal_raise, thread_signal_wait")], ["return value of the wait", "data written before the raise"]),
  note=SEED + "Each history is checked for linearizability against the one-flag model; a wait that never returns is a deadlock or no-progress report."),
 dict(id="P04", title="A signal wait times out neither early nor unboundedly late",
  statement="A wait with a timeout of N milliseconds that no raise satisfies returns 0 not before N milliseconds have passed and "
   "promptly after that; one satisfied by a raise within N milliseconds returns non-zero promptly. This holds at any point within a second at which it starts, for every "
   "N from 0 up, under spurious wake-ups, and whatever is done to the wall clock meanwhile.",
  quantifier=Q(["inputs", "schedules", "fault_sequences"], "all timeouts, all start instants, all raise instants, wall-clock steps, coarse clocks, spurious wake-ups"),
  why_tests_cant="Depends on the fraction of a second at which the call is made and on clock adjustments; no test covers waiting at all.",
  anchors=A([LT], [("absolute deadline computed once per wait", LT + ": thread_signal_wait")], ["elapsed simulated time and return value"]),
  note=SEED + "Simulated clocks start near second boundaries; 'promptly' allows 100 ms plus every delay the simulator itself injected."),
 dict(id="P05", title="The queue delivers every element exactly once and in order",
  statement="The single-producer/single-consumer queue hands the consumer exactly the elements it was initialised with followed by those "
   "successfully produced, each once, in order and with the contents the producer gave them, for any size and any number of elements. Its "
   "operations and its count behave like those of a bounded FIFO of that size: refused operations change nothing, the slot array is never overrun and the count stays between 0 and the size.",
  quantifier=Q(["schedules", "histories", "inputs"], "all interleavings of producer, consumer and a counting thread, all sizes and initial fills, histories of any length"),
  why_tests_cant="No test uses the queue; overwritten or duplicated elements need a full or empty queue at a particular interleaving, and position overflow needs 2^31 elements.",
  anchors=A([LT], [("count/head/tail protocol", LT + ": thread_queue_produce, thread_queue_consume")], ["values returned by consume", "return value of produce", "count"],
    [("count", "elements held", LT + ": thread_queue_t")]),
  note=SEED + "Every history checked against a bounded FIFO (exact search over linearizations for the two-client structure), races by happens-before; plus one accelerated single-thread history of more than 2^31 elements per size."),
 dict(id="P06", title="Queue operations block, time out and wake up as specified",
  statement="With an infinite timeout produce and consume wait until there is space or an element and then succeed, and a waiting side always wakes once the other "
   "side makes that possible. With a finite timeout they fail (0, NULL) only after it has passed and promptly then, with 0 they never wait, "
   "and produce returns non-zero exactly when it added the element.",
  quantifier=Q(["schedules", "histories", "fault_sequences"], "all interleavings, timeouts, sizes and fills; stalled sides, spurious and late wake-ups, wall-clock steps"),
  why_tests_cant="No test uses the queue; missed wake-ups need a producer or consumer interrupted between its check and its wait.",
  anchors=A([LT], [("waiting on data_ready and space_open", LT + ": thread_queue_produce, thread_queue_consume")], ["return values, elapsed simulated time, blocked threads"]),
  note=SEED + "Deadlock and no-progress detection give liveness once faults stop; 'promptly' allows 100 ms plus every injected delay."),
 dict(id="P07", title="Thread create, exit, join and destroy keep their promises",
  statement="A successfully created thread runs its procedure exactly once with the given argument and at least the requested stack; join returns "
   "the value it returned or passed to thread exit, after everything it wrote is visible, and destroy after (or without) join releases everything without ending the thread early. If creation "
   "fails, NULL is returned, the procedure never runs and nothing leaks; the name, the priority call and their failures change none of this.",
  quantifier=Q(["schedules", "histories", "fault_sequences", "inputs"], "all orders of creating, joining and destroying overlapping and nested threads, all return codes, names and stack sizes, failing thread creation, allocation and naming"),
  why_tests_cant="The tests create no thread; double joins, leaks on failure and early destroy depend on order and on failures of the system.",
  anchors=A([LT, "src/nanothread.cc"], [("handle that remembers the join", LT + ": thread_create, thread_join, thread_destroy"), ("thread_exit", LT)], ["join value, thread's side effects, number of unreaped threads, live memory"]),
  note=SEED + "The simulated pthread layer reports double joins, leaks and joins of dead handles; faults: EAGAIN, ENOMEM, refused names and priorities."),
 dict(id="P08", title="A timer wait never returns before its time",
  statement="Waiting N nanoseconds on a timer returns when at least N nanoseconds have passed and promptly after, for every N, however often the wait is "
   "interrupted by signals and whatever is done to the wall clock.",
  quantifier=Q(["inputs", "fault_sequences", "schedules"], "all durations, all sequences of interruptions, clock steps, several sleeping threads"),
  why_tests_cant="Needs interrupted sleeps at chosen points; no test waits.",
  anchors=A([LT], [("restart of an interrupted sleep with the remaining time", LT + ": thread_timer_wait")], ["elapsed simulated time"]),
  note=SEED + "EINTR is injected any number of times per wait with the correct remaining time."),
 dict(id="P09", title="Thread-local slots isolate threads and report creation failure",
  statement="Each thread reads from a thread-local slot exactly the value it last stored there itself, or NULL if it stored none since the slot was created, "
   "no matter what other threads store, exit or recreate; distinct live slots never share values. Creating a slot returns NULL if and only if the system could not provide one.",
  quantifier=Q(["schedules", "histories", "fault_sequences"], "all interleavings of threads using, destroying and recreating several slots, with failing slot creation"),
  why_tests_cant="No test uses slots; whether the first slot looks like a failure depends on the process's history.",
  anchors=A([LT], [("slot handle encoding", LT + ": thread_tls_create and friends")], ["values read back", "handle returned"]),
  note=SEED + "Simulated keys start at 0 as in glibc; values are compared with a per-thread model."),
 dict(id="P19", title="Processor count and inert thread handles survive failure",
  statement="hardware_concurrency reports the number of processors online and 0 only when that cannot be determined, from any thread at any time. "
   "A default-constructed thread object is not joinable, and joining or destroying it does nothing.",
  quantifier=Q(["schedules", "fault_sequences"], "all processor counts, failing queries at any call, concurrent callers"),
  why_tests_cant="Not tested at all; failure of the query cannot be provoked by a test.",
  anchors=A(["src/nanothread.cc", "include/nanothread.h"], [("sysconf query", "src/nanothread.cc: hardware_concurrency")], ["returned count", "joinable()"]),
  note=SEED),
]

CSEED = ("Seeded search over operation histories with failing allocations and throwing elements, compared after every operation with a small "
         "reference model; element lifetimes, heap blocks and bounds are tracked exactly; holds for what was executed. ")
VEC = "include/nanovector.h"
VAL = "include/nanovalarray.h"
MAP = "include/nanomap.h"
ALG = "include/nanoallocator.h"

PROPS += [
 dict(id="P10", title="vector and valarray are exact sequences, also when operations fail",
  statement="After any history of operations a vector or valarray holds exactly the elements the standard container would, in contiguous storage, with consistent "
   "size, capacity, iterators and accessors; every element is constructed and destroyed once, nothing leaks and no memory outside is touched. When an allocation or an element's "
   "operation throws, the exception passes through, push_back and resize leave the vector unchanged, other operations leave it valid holding only elements from its operands; pop, clear and swap never fail. "
   "Elements do not move while they fit the capacity, and appending n elements costs O(n) element operations in all.",
  quantifier=Q(["histories", "fault_sequences", "inputs"], "all operation histories, element types, sizes, and all sequences of failing allocations and throwing element operations"),
  why_tests_cant="The tests exercise a few fixed sequences of ints and strings without any failure; leaks, double destruction and lost elements need particular sizes and a failure at a particular point.",
  anchors=A([VEC, VAL, ALG], [("growth and relocation", VEC + ": push_back, resize, reserve"), ("element lifetime", ALG)], ["contents, size, capacity, data()", "live elements and heap blocks", "exceptions"]),
  note=CSEED),
 dict(id="P11", title="map is an exact ordered map with logarithmic search, also when operations fail",
  statement="After any history of insertions, accesses, lookups, copies and assignments a map holds exactly the elements std::map would; iteration visits each once in key order, "
   "find, upper_bound, insert and [] give what they give there, and elements never move while they are in the map. When an allocation, key comparison or element copy throws, the exception passes through, "
   "the map is unchanged by the failed insertion or lookup, and nothing leaks. A search makes O(log n) comparisons whatever the order of insertion.",
  quantifier=Q(["histories", "fault_sequences", "inputs"], "all operation histories, key orders, key and value types, and sequences of failures"),
  why_tests_cant="The tests insert a handful of keys; balance, iteration after rotations, deep copies and the state after a failed insertion need long or failing histories.",
  anchors=A([MAP], [("treap insertion and rotation", MAP + ": insert, rotate"), ("copy", MAP)], ["results of every operation, iteration, addresses of elements", "number of key comparisons", "live elements and heap blocks"]),
  note=CSEED + "'O(log n)' is decided as at most 40 + 12 log2(n+1) comparisons per search, which a random balanced tree exceeds with negligible probability."),
 dict(id="P12", title="string and stringstream hold exactly their text, also when memory runs out",
  statement="After any history of operations a string or stringstream holds exactly the characters std::string would, including NUL and high-bit characters, and its c_str() is terminated; comparisons order strings as std::string does "
   "(bytes as unsigned char). When an allocation fails, bad_alloc passes through and =, += and << leave the target unchanged; clear and erase never fail. No memory outside the string is touched and nothing leaks.",
  quantifier=Q(["histories", "fault_sequences", "inputs"], "all operation histories, texts, aliasing operands and sequences of failing allocations"),
  why_tests_cant="The tests use a few literal strings; self-append, empty strings, missing terminators and states after a failed allocation are not reached.",
  anchors=A(["include/nanostring.h", "include/nanosstream.h"], [("string built on vector<char>", "include/nanostring.h"), ("stringstream buffer", "include/nanosstream.h")], ["size, characters, terminator, comparison results", "heap blocks"]),
  note=CSEED),
 dict(id="P13", title="unique_ptr deletes what it owns exactly once, with its own deleter",
  statement="Through any history of moves, resets, releases, swaps and conversions, each object a unique_ptr takes over is deleted exactly once, when the pointer is destroyed or given another object, with the deleter it held then, "
   "or not at all after release; get, bool and comparisons agree. reset stores the new pointer before it deletes the old object, so a deleter may use the pointer that runs it.",
  quantifier=Q(["histories", "fault_sequences"], "all operation histories over plain, custom-deleter and array pointers, with re-entrant deleters and failing allocations"),
  why_tests_cant="The tests check a few moves; double deletion and wrong deleters depend on the order of operations, and re-entrancy on a deleter that calls back.",
  anchors=A(["include/nanomemory.h"], [("ownership transfer", "include/nanomemory.h: unique_ptr")], ["deletions, deleters, get()"]),
  note=CSEED),
 dict(id="P14", title="optional says truthfully whether it holds a value, also after exceptions",
  statement="After any history of construction, assignment, emplace, reset and swap, has_value says whether a live value is there and the accessors give it; each value is constructed and destroyed once, and rvalues are moved, not copied. When a value's operation throws, "
   "the exception passes through; assignment and swap leave which optionals hold values unchanged, and a failed emplace leaves the optional empty. Comparisons order an empty optional before every value.",
  quantifier=Q(["histories", "fault_sequences"], "all operation histories over throwing, allocating and trivial value types, with every sequence of failures"),
  why_tests_cant="No test throws from a value; a destructor run for a value that was never constructed needs exactly that.",
  anchors=A(["include/nanooptional.h", "include/nonstd/optional.hpp"], [("optional storage", "include/nonstd/optional.hpp")], ["has_value, value, live values"]),
  note=CSEED),
 dict(id="P15", title="variant holds one live alternative or is valueless, also after exceptions",
  statement="After any history of construction, assignment, emplace and swap a variant holds exactly one live value of the alternative index() names, the one last given to it, and holds_alternative, get, get_if and visit agree and give that very value. "
   "When an alternative's operation throws, the exception passes through and the variant keeps its old value or is valueless, and says so; each value is constructed and destroyed once, and rvalues are moved, not copied.",
  quantifier=Q(["histories", "fault_sequences"], "all operation histories over alternatives with and without throwing moves, with every sequence of failures"),
  why_tests_cant="No test throws while a variant changes its alternative.",
  anchors=A(["include/nanovariant.h", "include/nonstd/variant.hpp"], [("alternative storage and index", "include/nonstd/variant.hpp")], ["index, values, live values"]),
  note=CSEED),
 dict(id="P16", title="Distinct objects can be used from different threads without synchronisation",
  statement="Threads that each operate on their own containers, strings and optionals, and any number of threads that only read shared ones through const operations, never race and see exactly what a single thread would; no hidden shared state links separate objects. "
   "An object filled by one thread can be handed to another.",
  quantifier=Q(["schedules", "histories", "fault_sequences"], "all interleavings of threads over their own and shared-for-reading objects, with failures"),
  why_tests_cant="All tests are single-threaded; a data race on hidden static state shows up only as a rare wrong result.",
  anchors=A([VEC, MAP, "include/nanostring.h", "include/nanooptional.h"], [("absence of shared mutable state", "include/*.h")], ["results per thread", "race reports"]),
  note=SEED + "Races are decided by happens-before over every instrumented memory access."),
]
PROPS += [
 dict(id="P17", title="tuple and pair keep every element exactly, also when one throws",
  statement="After any history of construction (default, from values, by copy, move or from a tuple of other types), assignment, swap and access, each element of a tuple or pair holds exactly the value last given to it, and all forms of get give that one object; "
   "make_tuple, tie, forward_as_tuple and tuple_cat keep order and values, and comparisons are lexicographic. Elements are constructed and destroyed once, and those of rvalues are moved, not copied. When an element's operation throws, the exception passes through, a failed construction leaves nothing behind and a failed assignment or swap leaves each element with a value of one of its operands or moved-from.",
  quantifier=Q(["histories", "fault_sequences", "inputs"], "all operation histories over tuples and pairs of throwing, allocating, empty, over-aligned and trivial elements, with every sequence of failures"),
  why_tests_cant="No test uses a tuple or a pair; what happens to the elements already built or assigned when a later one throws needs exactly that failure.",
  anchors=A(["include/nanotuple.h", "include/tao/tuple/tuple.hpp", "include/nanoutility.h"], [("element storage and access", "include/tao/tuple/tuple.hpp: tuple_value, tuple_base, get"), ("pair", "include/nanoutility.h: pair")], ["element values, comparison results, live elements"]),
  note=CSEED),
 dict(id="P20", title="Range algorithms act exactly on their range, also when an element throws",
  statement="fill, also with an execution policy, assigns the value to every element of its range and to none outside; max_element gives the first of the largest elements and the end for an empty range; min and max give the first of equal arguments; distance counts the range; sin of a valarray is the sine of each element. "
   "fill and max_element need no more than forward iterators, and all of them only linearly many operations. When an element's assignment or comparison throws, the exception passes through and every element holds its old or the new value.",
  quantifier=Q(["histories", "fault_sequences", "inputs"], "all sequences of algorithms over sub-ranges of arrays, vectors, valarrays and plain forward iterators, with elements that throw at any point"),
  why_tests_cant="The tests call max_element on one array and never fill a sub-range; ties, empty ranges and an element that throws midway are not reached.",
  anchors=A(["include/nanoalgorithm.h", "include/nanoiterator.h"], [("algorithms", "include/nanoalgorithm.h"), ("distance", "include/nanoiterator.h")], ["results, values of all elements, number of operations"]),
  note=CSEED),
 dict(id="P18", title="An output stream writes what it was given once, complete and in order",
  statement="What is inserted into an output stream appears on standard output once it is flushed, exactly once, complete and in order: texts as they are, integers of every type in exact decimal form, floating-point numbers as to_string gives them. "
   "When an allocation fails inside an insertion the exception passes through and that item is not written at all; flush never throws. When the output itself fails, at most the text then being flushed is lost and nothing appears twice.",
  quantifier=Q(["histories", "fault_sequences", "inputs"], "all sequences of insertions and flushes on several streams, all texts and numbers, and all sequences of failing allocations and outputs"),
  why_tests_cant="No test looks at what a stream writes; lost or repeated text needs an allocation or an output that fails at a particular insertion or flush.",
  anchors=A(["include/nanoiostream.h", "include/nanosstream.h", "include/nanostring.h"], [("buffered insertion and flush", "include/nanoiostream.h: operator<<, flush")], ["bytes handed to standard output"]),
  note="Seeded search over histories with failing allocations and failing, also short, writes, compared with a model of the text; compiled with Clang, which these headers need; holds for what was executed. "),
]
PROPS += [
 dict(id="P21", title="Conversions between numbers and text are exact, from any number of threads",
  statement="to_string of an integer of any supported type is its exact decimal form; to_string of a float or double is the shortest decimal text that reads back as the same number, and stof and stod read it back as that number. "
   "stof and stod give the correctly rounded value of every decimal text (optional minus, point, exponent) of up to 9 respectively 17 significant digits, also beyond the smallest and largest number. "
   "Conversions in several threads do not disturb each other, a failing allocation only makes bad_alloc pass through, and no memory outside their buffers is touched.",
  quantifier=Q(["inputs", "schedules", "fault_sequences"], "all values of all types, all such texts, concurrent callers and failing allocations"),
  why_tests_cant="The tests convert a few small values in one thread; wrong roundings, dropped digits and buffers one byte short need particular values, and shared scratch memory needs an interleaving.",
  anchors=A(["include/nanostring.h", "include/__nanostrutil.h"], [("to_string, stof, stod", "include/nanostring.h"), ("shortest text and parsing", "include/__nanostrutil.h: d2d, f2d, to_chars, s2d_n, s2f_n")], ["text", "number read", "bytes touched"]),
  note="Seeded search over values, texts, interleavings and failing allocations against the C library's correctly rounded conversions; also built with address instrumentation that bounds arrays on the stack and static tables; holds for what was executed."),
 dict(id="P22", title="Math functions, numeric limits, hashes and type traits give standard values",
  statement="nanomath's functions, numeric_limits, the hash function objects and the type traits give the value their standard counterparts give, for every argument and type.",
  quantifier=Q(["inputs"], "all arguments and types"),
  why_tests_cant="The tests evaluate a few arguments within tolerances.",
  anchors=A(["include/nanomath.h", "include/nanolimits.h", "include/__hashfunc.h", "include/nanotype_traits.h"], [("polynomial approximations", "include/nanomath.h")], ["returned values"]),
  note="Not claimed."),
]

NOT_APPLICABLE = {"P22": "Pure functions of their arguments and compile-time constants: no schedule, clock, I/O, allocation, shared state or history for a simulation to vary, so only the arguments would be sampled, which is plain random testing."}
