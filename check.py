#!/usr/bin/env python3
"""Deterministic-simulation checks for nanostl.

  check.py PROPERTY            run one property's check (VERIF_TIER, VERIF_SEED)
  check.py --replay FILE       re-execute a replay file against /repo's tree
  check.py --build             build everything once (used as setup_cmd)
  check.py --selftest          determinism self-test of the simulator
"""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("NANOSTL_REPO", "/repo")
BUILD = os.environ.get("NANOSTL_BUILD", os.path.join(V, "build"))
SIM = os.path.join(V, "sim")
EVID = os.environ.get("NANOSTL_EVID", os.path.join(V, "evidence"))
NCPU = os.cpu_count() or 4

sys.path.insert(0, V)
from checks import GROUPS, CHECKS, COMMON_ASSUMPTIONS  # noqa: E402


class HarnessError(Exception):
    pass


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def first(*names):
    for n in names:
        p = shutil.which(n)
        if p:
            return p
    raise HarnessError("no compiler: %s" % (names,))


CXX = first("g++-13", "g++")
CC = first("gcc-13", "gcc")

HARNESS_FLAGS = ["-std=c++17", "-O2", "-g", "-w", "-fno-pie", "-I" + SIM]
SUT_FLAGS = ["-std=gnu++11", "-O1", "-g", "-w", "-fpermissive", "-fno-pie", "-fno-stack-protector",
             "-U_FORTIFY_SOURCE", "-fno-omit-frame-pointer", "-fsanitize=thread",
             "-DFASTFLOAT_FAST_FLOAT_H", "-DNANOSTL__NULLPTR", "-include", "stddef.h", "-I" + REPO + "/include"]

CLANG_SUT_FLAGS = ["-std=c++11", "-nostdinc++", "-O1", "-g", "-w", "-fno-pie", "-fno-stack-protector", "-U_FORTIFY_SOURCE",
                   "-fno-omit-frame-pointer", "-fsanitize=thread", "-DFASTFLOAT_FAST_FLOAT_H", "-I" + REPO + "/include"]

CLANG_CTR_FLAGS = ["-std=gnu++11", "-O1", "-g", "-w", "-fno-pie", "-fno-stack-protector", "-U_FORTIFY_SOURCE",
                   "-fno-omit-frame-pointer", "-fsanitize=thread", "-DFASTFLOAT_FAST_FLOAT_H", "-DNANOSTL__NULLPTR",
                   "-include", os.path.join(SIM, "pre_clang.h"), "-I" + REPO + "/include"]

# Sources of nondeterminism that must never reach the real system from the code under test.
DENY = re.compile(
    r"^(rand|srand|rand_r|random|srandom|drand48|getpid|gettid|getenv|secure_getenv|"
    r"pthread_.*|sem_.*|thrd_.*|mtx_.*|cnd_.*|clock|clock_.*|time|times|gettimeofday|nanosleep|usleep|sleep|"
    r"poll|ppoll|select|epoll_.*|futex|syscall|read|write|open|openat|close|fopen|fclose|fread|fwrite|"
    r"sched_.*|get_nprocs.*|get_phys_pages|timer_.*|timerfd_.*|eventfd|signal|sigaction|raise|kill|fork|getrandom|malloc|free|calloc|realloc|"
    r"strn?dup|v?asprintf|reallocarray|valloc|mlock.*|"
    r"memalign|posix_memalign|aligned_alloc|mmap|munmap|sbrk|_Zn[wa].*|_Zd[la].*|"
    r"_ZNSt6thread.*|_ZNSt5mutex.*|_ZNSt18condition_variable.*|_ZNSt6chrono.*)$")

NOT_STUBS = {"sim_switch", "sim_set_nproc", "sim_thread_stack_request", "sim_entry"}


def compile_harness(name, out, extra):
    src = os.path.join(SIM, name)
    h = hashlib.sha256()
    for f in sorted(os.listdir(SIM)):
        if f.endswith(".h"):
            h.update(open(os.path.join(SIM, f), "rb").read())
    h.update(open(src, "rb").read())
    if name.startswith("scn_"):  # scenarios may see the public C headers of the code under test
        for f in ("src/libs_thread.h",):
            p = os.path.join(REPO, f)
            if os.path.exists(p):
                h.update(open(p, "rb").read())
    h.update(repr((HARNESS_FLAGS, extra)).encode())
    stamp = out + ".stamp"
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == h.hexdigest():
        return
    comp = [CC, "-O2", "-fno-pie", "-c"] if name.endswith(".c") else [CXX] + HARNESS_FLAGS + extra + ["-c"]
    r = run(comp + [src, "-o", out])
    if r.returncode:
        raise HarnessError("compiling %s failed:\n%s" % (name, r.stdout[-4000:]))
    open(stamp, "w").write(h.hexdigest())


def stub_map(objs):
    m = {}
    r = run(["nm", "--defined-only"] + objs)
    for l in r.stdout.splitlines():
        p = l.split()
        if len(p) == 3 and p[1] in "TtW" and p[2].startswith("sim_"):
            n = p[2]
            if n in NOT_STUBS or n.startswith("sim_c_") or n.startswith("sim_new") or n.startswith("sim_delete") \
                    or n.startswith("sim_sut"):
                continue
            m[n[4:]] = n
    return m


ASAN_FLAGS = {False: ["-fsanitize=address", "--param", "asan-instrumentation-with-call-threshold=0", "--param", "asan-use-after-return=0"],
              True: ["-fsanitize=address", "-fsanitize-address-use-after-return=never", "-mllvm", "-asan-instrumentation-with-call-threshold=0"]}


def compile_sut(src, out, extra, redef, clang=False):
    if clang:
        cc = [first("clang++-18", "clang++")] + (CLANG_CTR_FLAGS if clang == "containers" else CLANG_SUT_FLAGS)
    else:
        cc = [CXX] + SUT_FLAGS
    if "ADDRESS" in extra:  # address instead of race instrumentation
        cc = [f for f in cc if f != "-fsanitize=thread"] + ASAN_FLAGS[bool(clang)]
        extra = [f for f in extra if f != "ADDRESS"]
    r = run(cc + extra + ["-c", src, "-o", out])
    if r.returncode:
        raise HarnessError("the code under test does not compile (%s):\n%s" % (src, r.stdout[-4000:]))
    r = run(["objcopy", "--redefine-syms=" + redef, out])
    if r.returncode:
        raise HarnessError(r.stdout)


def build(groups):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        build_locked(groups)


def build_locked(groups):
    core = ["kernel.cc", "mem.cc", "posix.cc", "runner.cc", "mark_begin.c", "mark_end.c"]
    ob = lambda n, g="": os.path.join(BUILD, (g + "-" if g else "") + re.sub(r"[^A-Za-z0-9_]", "_", n) + ".o")
    with cf.ThreadPoolExecutor(NCPU) as ex:
        jobs = [ex.submit(compile_harness, n, ob(n), []) for n in core]
        scn = []
        for g in groups:
            for s in GROUPS[g]["scn"]:
                scn.append(ex.submit(compile_harness, s, ob(s, g), GROUPS[g].get("scn_flags", [])))
        for j in jobs:
            j.result()
        redef = os.path.join(BUILD, "redef.txt")
        m = stub_map([ob("mem.cc"), ob("posix.cc")])
        with open(redef, "w") as f:
            for k, v in sorted(m.items()):
                f.write("%s %s\n" % (k, v))
        sj = []
        for g in groups:
            G = GROUPS[g]
            for s in G["sut"]:
                sj.append(ex.submit(compile_sut, os.path.join(REPO, s), ob(s, g), G.get("flags", []), redef, G.get("clang", False)))
            for s in G["drv"]:
                sj.append(ex.submit(compile_sut, os.path.join(SIM, s), ob(s, g),
                                    G.get("flags", []) + ["-I" + SIM, "-I" + REPO + "/src"], redef, G.get("clang", False)))
        for j in sj + scn:
            j.result()
    for g in groups:
        G = GROUPS[g]
        sut = [ob(s, g) for s in G["sut"] + G["drv"]]
        r = run(["nm", "-u"] + sut)
        leaks = sorted({l.split()[-1] for l in r.stdout.splitlines() if l.strip().startswith("U ")
                        and DENY.match(l.split()[-1])})
        defined = {l.split()[-1] for l in run(["nm", "--defined-only"] + sut).stdout.splitlines() if len(l.split()) == 3}
        leaks = [l for l in leaks if l not in defined]
        if leaks:
            raise HarnessError("code under test reaches outside the simulator: " + ", ".join(leaks))
        exe = os.path.join(BUILD, "sim-" + g)
        objs = [ob("mark_begin.c")] + sut + [ob("mark_end.c")] + [ob(s, g) for s in G["scn"]] + \
               [ob(n) for n in ("kernel.cc", "mem.cc", "posix.cc", "runner.cc")]
        r = run([CXX, "-no-pie", "-Wl,-z,now", "-o", exe] + objs)
        if r.returncode:
            raise HarnessError("link of %s failed:\n%s" % (g, r.stdout[-4000:]))


def build_what_compiles(groups):
    """Builds the groups; one marked optional may fail to compile."""
    try:
        build(groups)
        return list(groups), []
    except HarnessError:
        pass
    build([g for g in groups if not GROUPS[g].get("optional")])
    skipped, good = [], list(groups)
    for g in groups:
        if GROUPS[g].get("optional"):
            try:
                build([g])
            except HarnessError as e:
                skipped.append("%s: %s" % (g, str(e)[:1500]))
                good.remove(g)
    return good, skipped


def symbolise(exe, text):
    def sub(mo):
        a = mo.group(1)
        r = run(["addr2line", "-Cfe", exe, a])
        ls = r.stdout.strip().splitlines()
        if len(ls) == 2 and not ls[0].startswith("??"):
            return "%s at %s" % (ls[0], ls[1])
        return mo.group(0)
    return re.sub(r"pc (0x[0-9a-f]+)", sub, text)


def known_findings(prop):
    out = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) scenario=(\S+) class=(\S+) match=/(.*)/ :: (.*)$", l.strip())
            if m and m.group(1) == prop:
                out.append({"scenario": m.group(2), "class": m.group(3), "re": m.group(4), "text": m.group(5)})
    return out


def do_check(prop):
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    C = CHECKS[prop]
    t0 = time.time()
    groups = sorted({g for g, _, _, _ in C["runs"]})
    groups, skipped = build_what_compiles(groups)
    t_build = time.time() - t0
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    stats, viol, finds = [], [], []
    env = dict(REPO=REPO, BUILD=BUILD, SIM=SIM, CXX=CXX, run=run, tier=tier, seed=seed, HarnessError=HarnessError,
               EVID=EVID, prop=prop)
    pending = C["extra"][0](env) if C.get("extra") else None
    # every known finding is still looked for; see DESIGN.md
    for g, scn, nq, nt in C["runs"]:
        if g not in groups:
            print("note: build option %s does not compile, not searched" % g)
            continue
        exe = os.path.join(BUILD, "sim-" + g)
        n = nq if tier == "quick" else nt
        if os.environ.get("SIM_RUNS"):
            n = int(os.environ["SIM_RUNS"])
        ro = os.path.join(EVID, "replay", "%s-%s-%s.replay" % (prop, g, scn))
        sf = os.path.join(BUILD, "stats-%s-%s-%s.json" % (prop, g, scn))
        for f in (ro, sf):
            if os.path.exists(f):
                os.unlink(f)
        cap = 240 if tier == "quick" else 3600
        r = run([exe, "--search", scn, "--runs", str(n), "--seed", str(seed), "--workers", str(NCPU),
                 "--cap", str(cap), "--stats", sf, "--replay-out", ro, "--group", g])
        if r.returncode not in (0, 1):
            raise HarnessError("search %s/%s: exit %d\n%s" % (g, scn, r.returncode, r.stdout[-3000:]))
        st = json.load(open(sf))
        st["group"] = g
        stats.append(st)
        if r.returncode == 1:
            # the replay file must reproduce the violation exactly, in a fresh process, every time; code that
            # reads memory it never wrote can differ between processes (1: exactly, 2: a violation, differently)
            rcs = [run([exe, "--replay", ro]).returncode for _ in range(2)]
            if rcs != [1, 1]:
                rcs += [run([exe, "--replay", ro]).returncode for _ in range(8)]
                if sum(rc in (1, 2) for rc in rcs) < 3:
                    raise HarnessError("replay of %s does not reproduce (exits %s)" % (ro, rcs))
                st["violation"]["exact"] = False
            v = st["violation"]
            v["message"] = symbolise(exe, v["message"])
            k = [f for f in known_findings(prop) if f["scenario"] == scn and f["class"] == v["class"]
                 and re.search(f["re"], v["message"])]
            if k:
                finds.append(k[0])
            else:
                viol.append((ro, scn, v))
        if viol:
            break
    extra = None
    if C.get("extra"):
        if viol:
            for p in pending:
                p[-1].kill()
        else:
            extra = C["extra"][1](env, pending)
            if extra.get("violation"):
                viol.append(extra.pop("violation"))
    wall = time.time() - t0
    ev = make_evidence(prop, C, tier, seed, stats, wall, t_build, len(viol), extra, finds)
    if skipped:
        ev["coverage"]["builds_that_did_not_compile"] = skipped
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in finds:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["text"]))
    for ro, scn, v in viol:
        print("%s: %s: %s" % (scn, v["class"], v["message"]))
        print("  found in run %s of seed %d, minimised to %s operation(s), %s schedule event(s), %s fault(s)"
              % (v["run"], seed, v["ops"][1], v["sched"][1], v["choices"][1]))
        if not v.get("exact", True):
            print("  note: the replay breaks the property again, but not step for step: the code reads memory it never wrote")
        print("VIOLATION property=%s replay=%s" % (prop, ro))
    c = ev["coverage"]
    print("%s %s: %d simulated runs (%d distinct non-trivial), %.0f simulated s, build %.1fs, total %.1fs%s"
          % (prop, tier, c["evaluations"], c["distinct_nontrivial"], c["simulated_seconds"], t_build, wall,
             "" if viol else " - held"))
    return 1 if viol else 0


def merge(dst, src):
    for k, v in src.items():
        if isinstance(v, dict):
            merge(dst.setdefault(k, {}), v)
        else:
            dst[k] = dst.get(k, 0) + v
    return dst


def make_evidence(prop, C, tier, seed, stats, wall, t_build, nviol, extra, finds):
    tot = lambda k: sum(s[k] for s in stats)
    faults, probes, stubs, strat = {}, {}, {}, {}
    samples = []
    per = []
    for s in stats:
        merge(faults, s["faults"])
        merge(probes, s["probes"])
        merge(stubs, s["stub_calls"])
        merge(strat, s["strategies"])
        for x in s["samples"][:2]:
            samples.append(dict(x, scenario=s["scenario"], build=s["group"]))
        per.append({k: s[k] for k in ("scenario", "group", "what", "runs", "requested", "abandoned", "nontrivial", "distinct", "steps",
                                      "switches", "sim_seconds", "wall_s", "healed_runs", "fault_free_runs",
                                      "repeat_checked", "repeat_mismatches", "max_threads", "workers")})
        if s.get("violation"):
            per[-1]["violation"] = s["violation"]
    sw = sum(s["wall_s"] for s in stats) or 1e-9
    runs = tot("runs")
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": tot("distinct"),
        "rule": "one evaluation = one complete simulated execution of a generated client program from its own seed; "
                "distinct = different hash of (client program, sequence of scheduling decisions at synchronisation "
                "points and preemptions, injected faults), counted per scenario build; non-trivial = the scenario's "
                "own condition for having exercised the property (at least one operation / creation / overlap)",
        "samples": samples or [{"note": "violation found before sampling"}],
        "runs_per_hour": int(runs / sw * 3600),
        "seeds_per_hour": int(runs / sw * 3600),
        "simulated_seconds": round(tot("sim_seconds"), 3),
        "scheduling_points": tot("steps"),
        "context_switches": tot("switches"),
        "faults_injected": faults,
        "rare_condition_probes": probes,
        "strategies": strat,
        "runs_repeated_and_compared": tot("repeat_checked"),
        "per_scenario": per,
        "real_components": C.get("real", []),
        "stubbed_components_calls": stubs,
        "build_s": round(t_build, 2),
        "known_findings_seen": [k["text"] for k in finds],
    }
    if extra:
        cov["extra"] = extra
    return {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
            "assumptions": C.get("assumptions", []) + COMMON_ASSUMPTIONS, "wall_s": round(wall, 2),
            "violations": nviol}


def do_replay(path, trace):
    txt = open(path).read()
    m = re.search(r"^group (\S+)", txt, re.M)
    g = m.group(1)
    if g == "longhaul":
        from checks import longhaul_replay
        return longhaul_replay(dict(REPO=REPO, BUILD=BUILD, SIM=SIM, CXX=CXX, run=run, HarnessError=HarnessError), txt)
    build([g])
    exe = os.path.join(BUILD, "sim-" + g)
    r = run([exe, "--replay", path] + (["--trace"] if trace else []))
    print(symbolise(exe, r.stdout), end="")
    return {1: 1, 0: 0}.get(r.returncode, r.returncode)


def selftest():
    build(list(GROUPS))
    bad = 0
    for g in GROUPS:
        exe = os.path.join(BUILD, "sim-" + g)
        for l in run([exe, "--list"]).stdout.splitlines():
            scn = l.split()[1]
            a = subprocess.run([exe, "--hash", scn, "--seed", "7", "--from", "0", "--count", "400"], stdout=subprocess.PIPE, text=True).stdout
            b = ""
            for k in range(4):  # the same seeds from fresh processes, in a different order
                b = subprocess.run([exe, "--hash", scn, "--seed", "7", "--from", str(300 - 100 * k), "--count", "100"],
                                   stdout=subprocess.PIPE, text=True).stdout + b
            ok = a == b
            bad += not ok
            print("%-8s %-22s %s (%d runs)" % (g, scn, "identical" if ok else "DIFFERENT", len(a.splitlines())))
    return 1 if bad else 0


def main():
    a = sys.argv[1:]
    try:
        if a and a[0] == "--replay":
            return do_replay(a[1], "--trace" in a)
        if a and a[0] == "--build":
            for m in build_what_compiles(a[1:] or list(GROUPS))[1]:
                print("note: build option does not compile: " + m)
            return 0
        if a and a[0] == "--selftest":
            return selftest()
        if a and a[0] in CHECKS:
            return do_check(a[0])
    except HarnessError as e:
        print("HARNESS-ERROR: %s" % e)
        return 3
    except Exception:  # a defect of this script is no verdict on the code
        import traceback
        print("HARNESS-ERROR: " + traceback.format_exc())
        return 3
    print(__doc__)
    return 3


if __name__ == "__main__":
    sys.exit(main())
