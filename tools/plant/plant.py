#!/usr/bin/env python3
"""plant.py [ids]: (re)create /verif/seeded/<id>/ from the definitions in bugs*.py beside this file and confirm them."""
import subprocess, sys, os, json, shutil, glob
HERE=os.path.dirname(os.path.abspath(__file__))
W="/tmp/plant-w"
def sh(c, cwd=None, t=900): return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
DEMO='''#!/bin/bash
# Exit 0: the code in the current directory (the repository) behaves; nonzero: it does not.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
export HOME=${HOME:-/root} PATH=$PATH:/usr/local/bin:/usr/bin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=readonly
export GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
printf '{"Replace":{"%%s/zzdemo/main.go":"%%s/demo.go"}}' "$PWD" "$D" > "$T/o.json"
go build %s -overlay "$T/o.json" -o "$T/demo" ./zzdemo || exit 3
timeout 200 "$T/demo"
'''
B=[]
def bug(id, prop, needs, breaks, eds, demo, race=False): B.append((id,prop,needs,breaks,eds,demo,race))
for f in sorted(glob.glob(HERE+"/bugs*.py")): exec(open(f).read())
base=json.load(open("/opt/vp/BASELINE.json"))["stable"]
want=sys.argv[1:]
def copy():
    shutil.rmtree(W, ignore_errors=True); subprocess.run(["cp","-a","/repo",W],check=True)
for id,prop,needs,breaks,eds,demo,race in B:
    if want and id not in want: continue
    copy()
    d="/verif/seeded/"+id
    os.makedirs(d,exist_ok=True)
    open(d+"/demo.go","w").write(demo.strip()+"\n")
    sh("gofmt -w "+d+"/demo.go")
    open(d+"/demo.sh","w").write(DEMO%("-race" if race else "")); os.chmod(d+"/demo.sh",0o755)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+"/meta.json","w"),indent=1)
    r0=sh("bash "+d+"/demo.sh",cwd=W)
    bad=None
    for f,old,new in eds:
        p=W+"/"+f; s=open(p).read()
        if s.count(old)!=1: bad="%s: %d matches of %r"%(f,s.count(old),old[:50]); break
        open(p,"w").write(s.replace(old,new))
    if bad: print(id,"BADEDIT",bad); continue
    sh("gofmt -l .",cwd=W)
    diff=subprocess.run(["git","diff"],cwd=W,stdout=subprocess.PIPE,text=True).stdout
    open(d+"/patch.diff","w").write(diff)
    blame=[]
    # does it touch original lines? (deleted/changed lines must be of the base commit)
    r1=sh("bash "+d+"/demo.sh",cwd=W)
    r2=sh("bash "+d+"/demo.sh",cwd=W)
    # stable tests, applied to /repo
    assert sh("git -C /repo status --porcelain").stdout.strip()=="","dirty"
    try:
        a=sh("git -C /repo apply %s/patch.diff"%d)
        b=sh("bash /opt/vp/build.sh"); sh("bash /opt/vp/test.sh /tmp/po.json")
        ok=json.load(open("/tmp/po.json"))["passed"]
    finally: sh("git -C /repo checkout -- .")
    failed=[t for t in base if t not in ok]
    dels=[l for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
    good=r0.returncode==0 and r1.returncode not in (0,3) and r2.returncode not in (0,3) and not failed and b.returncode==0 and a.returncode==0
    print(id,"OK" if good else "PROBLEM","clean=%d bug=%d,%d build=%d apply=%d failed=%s dels=%d"%(r0.returncode,r1.returncode,r2.returncode,b.returncode,a.returncode,failed,len(dels)),flush=True)
    if not good: print(r0.stdout[-800:],"\n--\n",r1.stdout[-800:],b.stdout[-300:],a.stdout)
    else: print("   ",r1.stdout.strip().splitlines()[-1][:160])
shutil.rmtree(W, ignore_errors=True)
