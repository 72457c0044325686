"""What each check runs: property -> scenarios, builds, budgets."""
import os
import subprocess

REPO = os.environ.get("NANOSTL_REPO", "/repo")

GROUPS = {
    "thr": dict(sut=["src/nanothread.cc"], drv=["drv_plain.cc", "drv_cppthread.cc"], scn=["scn_thread.cc"],
                scn_flags=["-I" + REPO + "/src"]),
    "thrnd": dict(sut=["src/nanothread.cc"], drv=["drv_plain.cc", "drv_cppthread.cc"], scn=["scn_thread.cc"],
                  flags=["-DNDEBUG"], scn_flags=["-DNDEBUG", "-I" + REPO + "/src"]),
    "ctr": dict(sut=["src/nanoexception.cc"], drv=["drv_ctr.cc", "drv_ptr.cc", "drv_var.cc", "drv_alg.cc"], scn=["scn_ctr.cc"], flags=["-fstack-protector-strong"]),
    # the build option in which the library declares its functions noexcept
    "ctrx": dict(sut=[], drv=["drv_ctr.cc", "drv_ptr.cc", "drv_var.cc", "drv_alg.cc"], scn=["scn_ctr.cc"],
                 flags=["-fstack-protector-strong", "-DNANOSTL_ENABLE_EXCEPTION"], optional=True),
    # Clang takes other branches of the type traits and of the compiler-dependent macros
    "ctrc": dict(sut=["src/nanoexception.cc"], drv=["drv_ctr.cc", "drv_ptr.cc", "drv_var.cc", "drv_alg.cc"], scn=["scn_ctr.cc"],
                 flags=["-fstack-protector-strong"], clang="containers", optional=True),
    # address instrumentation: also arrays on the stack, static tables and variables out of scope are bounded
    "ctra": dict(sut=["src/nanoexception.cc"], drv=["drv_ctr.cc", "drv_ptr.cc", "drv_var.cc", "drv_alg.cc"], scn=["scn_ctr.cc"], flags=["ADDRESS"]),
    "ioa": dict(sut=[], drv=["drv_io.cc"], scn=["scn_io.cc"], flags=["ADDRESS"], clang=True),
    # the stream headers need Clang's __has_feature
    "io": dict(sut=[], drv=["drv_io.cc"], scn=["scn_io.cc"], flags=["-fstack-protector-strong"], clang=True),
}

COMMON_ASSUMPTIONS = [
    "x86-64 Linux paths of the sources, compiled at -O1 with GCC and, where the components say so, Clang, with race-detector "
    "or address instrumentation; other platforms' branches and other optimisation levels are not executed",
    "executions are sequentially consistent at instruction granularity or, in six scenarios, have x86-like store buffers; other "
    "weak-memory effects are covered only through the happens-before race detector, which honours the memory order of each atomic",
    "the simulated primitives (pthread, clocks, heap, output) are faithful to POSIX; their behaviour is listed in DESIGN.md",
    "a seeded search: absence of a violation holds for the executions run, not for all executions",
]


def longhaul_case(env, size, n, cap, burst=0):
    return [os.path.join(env["BUILD"], "longhaul"), str(size), str(n), str(cap), str(burst)]


def longhaul_build(env):
    exe = os.path.join(env["BUILD"], "longhaul")
    r = env["run"]([env["CXX"], "-O2", "-w", "-I" + env["REPO"] + "/src", os.path.join(env["SIM"], "longhaul.cc"),
                    "-o", exe, "-pthread"])
    if r.returncode:
        raise env["HarnessError"]("longhaul does not compile:\n" + r.stdout[-3000:])


def longhaul_start(env):
    longhaul_build(env)
    quick = env["tier"] == "quick"
    sizes = [3, 7] if quick else [1, 2, 3, 5, 6, 7, 100]
    n = (1 << 31) + 1000 if quick else (1 << 32) + 1000
    cap = 150 if quick else 900
    # and large queues, filled and emptied in bursts
    cases = [(s, n, cap, 0) for s in sizes] + [(s, max(40 * s, 1000000), cap, 1) for s in (
        100, 255, 256, 257, 1000, 4096, 32768, 65535, 65536, 65537, 100003, 1000003)]
    ps = []
    for s, n, cap, burst in cases:
        cmd = longhaul_case(env, s, n, cap, burst)
        ps.append((s, n, cap, burst, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    return ps


def longhaul_finish(env, ps):
    out = {"what": "single-threaded accelerated histories of the real queue code: past 2^31 elements, and large queues in bursts",
           "cases": []}
    for s, n, cap, burst, p in ps:
        o, _ = p.communicate()
        o = o.strip()
        out["cases"].append({"size": s, "requested": n, "bursts": burst, "result": o or "signal %d" % -p.returncode})
        if p.returncode != 0 and "violation" not in out:
            path = os.path.join(env["EVID"], "replay", "%s-longhaul.replay" % env["prop"])
            with open(path, "w") as f:
                f.write("nanostl-dst-replay 1\ngroup longhaul\nsize %d\nelements %d\ncap %d\nburst %d\nresult %s\nend\n" % (s, n, cap, burst, o))
            out["violation"] = (path, "queue_longhaul", {
                "run": 0, "class": "queue-longhaul", "message": o or "died with signal %d" % -p.returncode,
                "ops": [n, n], "sched": [0, 0], "choices": [0, 0]})
    return out


def longhaul_replay(env, txt):
    import re
    longhaul_build(env)
    g = lambda k: int(re.search(r"^%s (\d+)" % k, txt, re.M).group(1))
    r = env["run"](longhaul_case(env, g("size"), g("elements"), g("cap"), g("burst")))
    print(r.stdout.strip() or "died with status %d" % r.returncode)
    return 1 if r.returncode else 0


THREAD_REAL = ["src/nanothread.cc", "src/libs_thread.h"]
CHECKS = {
    "P01": dict(runs=[("thr", "atomic_lin", 3000000, 60000000), ("thr", "atomic_publish", 1500000, 30000000), ("thr", "atomic_long", 40000, 1000000)],
                real=THREAD_REAL),
    "P02": dict(runs=[("thr", "mutex_excl", 4000000, 80000000), ("thr", "mutex_long", 30000, 1000000)], real=THREAD_REAL),
    "P03": dict(runs=[("thr", "signal_hist", 4000000, 80000000), ("thr", "signal_long", 8000, 300000)], real=THREAD_REAL),
    "P04": dict(runs=[("thr", "signal_time", 5000000, 100000000)], real=THREAD_REAL),
    "P05": dict(runs=[("thr", "queue_fifo", 1200000, 20000000), ("thrnd", "queue_fifo", 1200000, 20000000),
                        ("thr", "queue_pipe", 150000, 3000000), ("thrnd", "queue_pipe", 150000, 3000000)],
                real=THREAD_REAL, extra=(longhaul_start, longhaul_finish)),
    "P06": dict(runs=[("thr", "queue_block", 1000000, 20000000), ("thrnd", "queue_block", 1000000, 20000000),
                        ("thr", "queue_pipe", 250000, 5000000), ("thrnd", "queue_pipe", 250000, 5000000)],
                real=THREAD_REAL),
    "P07": dict(runs=[("thr", "thread_life", 2500000, 50000000)], real=THREAD_REAL),
    "P08": dict(runs=[("thr", "timer_wait", 6000000, 100000000)], real=THREAD_REAL),
    "P09": dict(runs=[("thr", "tls_isolation", 4000000, 80000000)], real=THREAD_REAL),
    "P19": dict(runs=[("thr", "hw_concurrency", 3000000, 30000000)], real=THREAD_REAL),
    "P10": dict(runs=[("ctr", "seq_hist", 5000000, 100000000), ("ctrc", "seq_hist", 1000000, 20000000), ("ctr", "seq_long", 150000, 3000000), ("ctrc", "seq_long", 30000, 600000), ("ctra", "seq_hist", 1000000, 20000000), ("ctra", "seq_long", 30000, 600000)], real=["include/nanovector.h", "include/nanovalarray.h", "include/nanoallocator.h"]),
    "P11": dict(runs=[("ctr", "map_hist", 1200000, 24000000), ("ctrc", "map_hist", 240000, 4800000), ("ctr", "map_big", 60000, 1200000), ("ctrc", "map_big", 12000, 240000), ("ctra", "map_hist", 240000, 4800000)], real=["include/nanomap.h", "include/nanoutility.h"]),
    "P12": dict(runs=[("ctr", "str_hist", 4000000, 80000000), ("ctrc", "str_hist", 800000, 16000000), ("ctra", "str_hist", 800000, 16000000)], real=["include/nanostring.h", "include/nanosstream.h", "include/nanovector.h"]),
    "P13": dict(runs=[("ctr", "uptr_hist", 8000000, 160000000), ("ctrc", "uptr_hist", 1600000, 32000000), ("ctrx", "uptr_hist", 2000000, 40000000), ("ctra", "uptr_hist", 1600000, 32000000)], real=["include/nanomemory.h"]),
    "P14": dict(runs=[("ctr", "opt_hist", 8000000, 160000000), ("ctrc", "opt_hist", 1600000, 32000000), ("ctra", "opt_hist", 1600000, 32000000)], real=["include/nonstd/optional.hpp"]),
    "P15": dict(runs=[("ctr", "var_hist", 8000000, 160000000), ("ctrc", "var_hist", 1600000, 32000000), ("ctrx", "var_hist", 2000000, 40000000), ("ctra", "var_hist", 1600000, 32000000)], real=["include/nonstd/variant.hpp"]),
    "P16": dict(runs=[("ctr", "conc_objects", 2500000, 50000000), ("ctrc", "conc_objects", 500000, 10000000)], real=["include/nanovector.h", "include/nanomap.h", "include/nanostring.h", "include/nanooptional.h"]),
    "P17": dict(runs=[("ctr", "tuple_hist", 4000000, 80000000), ("ctrc", "tuple_hist", 800000, 16000000), ("ctrx", "tuple_hist", 1000000, 20000000), ("ctra", "tuple_hist", 800000, 16000000)], real=["include/nanotuple.h", "include/tao/tuple/tuple.hpp", "include/nanoutility.h"]),
    "P20": dict(runs=[("ctr", "alg_hist", 8000000, 160000000), ("ctrc", "alg_hist", 1600000, 32000000), ("ctra", "alg_hist", 1600000, 32000000)], real=["include/nanoalgorithm.h", "include/nanoiterator.h", "include/nanovector.h", "include/nanovalarray.h"]),
    "P21": dict(runs=[("ctr", "num_text", 2500000, 50000000), ("ctrc", "num_text", 500000, 10000000), ("ctra", "num_text", 1000000, 20000000)], real=["include/nanostring.h", "include/__nanostrutil.h"]),
    "P18": dict(runs=[("io", "stream_hist", 2000000, 40000000), ("ioa", "stream_hist", 400000, 8000000)], real=["include/nanoiostream.h", "include/nanosstream.h", "include/nanostring.h", "include/nanovector.h"]),
}
