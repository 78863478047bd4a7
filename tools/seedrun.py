#!/usr/bin/env python3
"""seedrun.py [ids...]: apply each planted change to /repo, run its property's check, undo it."""
import subprocess, sys, os, json, time, glob
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
assert sh("git -C /repo status --porcelain").stdout.strip() == "", "dirty /repo"
for d in sorted(glob.glob(ROOT + "/seeded/*")):
    id = os.path.basename(d)
    if sys.argv[1:] and id not in sys.argv[1:]: continue
    prop = json.load(open(d + "/meta.json"))["property"]
    try:
        assert sh("git -C /repo apply %s/patch.diff" % d).returncode == 0, d
        t0 = time.time()
        r = sh("python3 check.py " + prop, cwd=ROOT)
        v = [l for l in r.stdout.splitlines() if l.startswith(("VIOLATION", "CHECK-ERROR"))]
        print("%-30s %s %s rc=%d %.0fs %s" % (id, prop, "CAUGHT" if r.returncode == 1 else "MISSED", r.returncode, time.time()-t0, v[0][:120] if v else ""), flush=True)
        open("/tmp/seed-%s.log" % id, "w").write(r.stdout)
    finally:
        sh("git -C /repo checkout -- .")
