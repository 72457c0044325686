#!/usr/bin/env python3
"""tools_seed.py new ID PROP 'needs' 'breaks' : turn the uncommitted diff of /tmp/wt/repo into seeded/ID (demo.sh must exist).
tools_seed.py verify [ID...]: confirm, in a scratch copy, that each planted change builds, passes the tests, and that its demo
exits 0 without and nonzero with it.   tools_seed.py catch [ID...]: run the property's check against each."""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.abspath(__file__))
S = os.path.join(V, "seeded")
def sh(c, **k): return subprocess.run(c, shell=isinstance(c, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def ids(a): return a or sorted(os.listdir(S))
def main():
    cmd, a = sys.argv[1], sys.argv[2:]
    if cmd == "new":
        d = os.path.join(S, a[0]); os.makedirs(d, exist_ok=True)
        diff = sh(["git", "-C", "/tmp/wt/repo", "diff"]).stdout
        assert diff.strip(), "no diff"
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": a[1], "needs": a[2], "what_it_breaks": a[3]}, open(d + "/meta.json", "w"), indent=1)
        sh(["git", "-C", "/tmp/wt/repo", "checkout", "--", "."])
    elif cmd == "verify":
        for i in ids(a):
            d = os.path.join(S, i)
            try:
                assert not sh(["git", "-C", "/repo", "status", "--porcelain"]).stdout.strip(), "dirty /repo"
                sh("bash /opt/vp/build.sh")
                r0 = sh(["bash", d + "/demo.sh"], cwd="/repo", timeout=300)
                r = sh(["git", "-C", "/repo", "apply", d + "/patch.diff"]); assert r.returncode == 0, r.stdout
                b = sh("bash /opt/vp/build.sh")
                sh("bash /opt/vp/test.sh /tmp/seedtest.json")
                t = json.load(open("/tmp/seedtest.json"))
                r1 = sh(["bash", d + "/demo.sh"], cwd="/repo", timeout=300)
                ok = r0.returncode == 0 and r1.returncode != 0 and b.returncode == 0 and t["failed"] == []
                print("%-28s %s build=%d tests_failed=%s demo: %d -> %d" % (i, "OK " if ok else "BAD", b.returncode, t["failed"], r0.returncode, r1.returncode), "" if ok else r0.stdout[-500:] + r1.stdout[-300:], flush=True)
            finally:
                sh(["git", "-C", "/repo", "checkout", "--", "."])
        sh("bash /opt/vp/build.sh")
    elif cmd == "catch":  # in a scratch copy, so that /repo stays untouched
        for i in ids(a):
            d = os.path.join(S, i); p = json.load(open(d + "/meta.json"))["property"]
            c = "/tmp/wt/catch"
            shutil.rmtree(c, ignore_errors=True)
            shutil.copytree("/repo", c, symlinks=True, ignore=shutil.ignore_patterns("_build", ".git"))
            r = sh(["git", "apply", "--directory=" + c[1:], "--unsafe-paths", d + "/patch.diff"], cwd="/"); assert r.returncode == 0, r.stdout
            r = sh([sys.executable, V + "/check.py", p], env=dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick",
                   NANOSTL_REPO=c, NANOSTL_BUILD="/tmp/wt/catchbuild", NANOSTL_EVID="/tmp/wt/catchevid"))
            ls = [l for l in r.stdout.splitlines()]
            print("%-28s %s %s rc=%d | %s" % (i, p, "CAUGHT" if r.returncode == 1 and "VIOLATION property=" + p in r.stdout else "missed", r.returncode, " | ".join(ls[:2])[:300]), flush=True)
            shutil.rmtree(c)
main()
