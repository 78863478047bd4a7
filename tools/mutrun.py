#!/usr/bin/env python3
"""mutrun.py [ids...]: apply each mutant to /repo, run the stable tests and its property's check, undo it."""
import subprocess, sys, os, json, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mutants import M
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
assert sh("git -C /repo status --porcelain").stdout.strip() == "", "dirty /repo"
base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
want = sys.argv[1:]
for id, prop, eds in M:
    if want and id not in want and prop not in want: continue
    try:
        bad = None
        for f, old, new in eds:
            p = "/repo/" + f; s = open(p).read()
            if s.count(old) != 1: bad = "%s: %d matches" % (f, s.count(old)); break
            open(p, "w").write(s.replace(old, new))
        if bad: print(id, prop, "BADEDIT", bad, flush=True); continue
        b = sh("bash /opt/vp/build.sh")
        if b.returncode: print(id, prop, "NOBUILD", b.stdout[-300:], flush=True); continue
        sh("bash /opt/vp/test.sh /tmp/mo.json")
        ok = json.load(open("/tmp/mo.json"))["passed"]
        failed = [t for t in base if t not in ok]
        t0 = time.time()
        r = sh("python3 check.py " + prop, cwd=ROOT)
        v = [l for l in r.stdout.splitlines() if l.startswith(("VIOLATION", "CHECK-ERROR"))]
        print("%-22s %s %s rc=%d %.0fs %s%s" % (id, prop, "CAUGHT" if r.returncode == 1 else "MISSED", r.returncode, time.time()-t0,
              (v[0][:120] if v else ""), "  [tests fail: %d]" % len(failed) if failed else ""), flush=True)
        open("/tmp/mut-%s.log" % id, "w").write(r.stdout)
    finally:
        sh("git -C /repo checkout -- .")
