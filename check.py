#!/usr/bin/env python3
"""check.py <ID>            run the check of one property (tier and seed from VERIF_TIER / VERIF_SEED)
check.py --replay FILE    run one saved case against /repo's current tree
check.py --build-only     build the harness (warms the build cache)
Exit: 0 held, 1 violated (VIOLATION line), 2 the check itself could not do its work."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(ROOT, "harness")
# Properties whose facets run in a race-detector build.
RACE = {"R04"}
SHARDS = {"V01": 1}
# Properties that may legitimately be attacked with memory blow-ups: bound the address space (KiB).
ULIMIT_KB = {"R07": 12 * 1024 * 1024}
DEADLINE = {"quick": 120, "thorough": 1500}
KILL = {"quick": 780, "thorough": 6000}

def env_go():
    e = dict(os.environ)
    e.update(HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOFLAGS="-mod=readonly",
             GOMODCACHE="/root/go/pkg/mod", GONOSUMDB="*", GOSUMDB="off")
    e["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/usr/local/go/bin:" + e.get("PATH", "")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    return e

def die(msg):
    print("CHECK-ERROR " + msg, flush=True)
    sys.exit(2)

def build(work, race):
    out = os.path.join(work, "h-race.test" if race else "h.test")
    cmd = ["go", "test", "-c", "-vet=off", "-o", out] + (["-race"] if race else []) + ["."]
    p = subprocess.run(cmd, cwd=HARNESS, env=env_go(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        die("harness does not build against /repo:\n" + p.stdout[-6000:])
    return out

def build_service(work):
    out = os.path.join(work, "service")
    e = env_go()
    p = subprocess.run(["go", "build", "-o", out, "./cmd/service"], cwd="/repo", env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        die("service does not build:\n" + p.stdout[-6000:])
    return out

def popen(cmd, env, log, work, ulimit=None):
    def pre():
        os.setsid()
        import resource
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if ulimit:
            resource.setrlimit(resource.RLIMIT_AS, (ulimit * 1024, ulimit * 1024))
    return subprocess.Popen(cmd, env=env, stdout=log, stderr=subprocess.STDOUT, cwd=work, preexec_fn=pre)

def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass

def read(path):
    try:
        with open(path, errors="replace") as f:
            return f.read()
    except OSError:
        return ""

REPO_FRAME = re.compile(r"^trypo/|^\s+/repo/", re.M)

def crash_message(log):
    """Classify the output of a test process that died: (kind, excerpt)."""
    if "VH-HANG" in log:
        i = log.index("VH-HANG")
        return "hang", log[i:i + 6000]
    m = re.search(r"^(panic:|fatal error:|WARNING: DATA RACE|runtime: out of memory|SIG[A-Z]+)", log, re.M)
    if m:
        ex = log[m.start():m.start() + 6000]
        kind = "race" if "DATA RACE" in m.group(0) else "crash"
        return kind, ex
    return None, log[-3000:]

def replay(binary, path, env, work, prop, repeat=1, timeout=400):
    e = dict(env)
    for k in ("VH_PROP",):
        e.pop(k, None)
    e.update(VH_REPLAY=path, VH_REPEAT=str(repeat))
    logp = os.path.join(work, "replay.log")
    with open(logp, "w") as log:
        p = popen([binary, "-test.run", "^TestReplay$", "-test.timeout", "0"], e, log, work, ULIMIT_KB.get(prop) if prop not in RACE else None)
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            kill(p)
            rc = -999
        kill(p)
    return rc, read(logp)

def replay_verdict(rc, log):
    if rc == 76:
        return True, log[log.find("VH-VIOLATION"):][:6000]
    if rc == 77:
        return True, log[log.find("VH-HANG"):][:6000]
    if rc == 0 and "VH-OK" in log:
        return False, "case passes"
    if rc == 2 and "VH-ENV" in log:
        return None, log[-2000:]
    kind, ex = crash_message(log)
    if kind:
        return True, ex
    return None, log[-3000:]

def minimise(binary, rf, env, work, prop, budget):
    """Greedy list-shrinking of a crashing case (rapid cannot shrink what kills its process)."""
    end = time.time() + budget
    path = os.path.join(work, "min.json")
    def bad(case):
        with open(path, "w") as f:
            json.dump(dict(rf, case=case), f)
        rc, log = replay(binary, path, env, work, prop, timeout=max(5, min(60, end - time.time())))
        v, _ = replay_verdict(rc, log)
        return v is True
    case = rf["case"]
    changed = True
    while changed and time.time() < end:
        changed = False
        for key in sorted(case if isinstance(case, dict) else []):
            lst = case[key]
            if not isinstance(lst, list):
                continue
            step = max(1, len(lst) // 2)
            while step >= 1 and time.time() < end:
                i = 0
                while i < len(case[key]) and time.time() < end:
                    cand = dict(case)
                    cand[key] = case[key][:i] + case[key][i + step:]
                    if bad(cand):
                        case = cand
                        changed = True
                    else:
                        i += step
                step //= 2
    return dict(rf, case=case)

def known_findings():
    """Lines of known_findings.txt: '{json}' for open findings; 'fixed: ...' lines suppress nothing."""
    out = []
    for line in read(os.path.join(ROOT, "known_findings.txt")).splitlines():
        line = line.strip()
        if line.startswith("{"):
            out.append(json.loads(line))
    return out

def main():
    args = sys.argv[1:]
    if not args:
        die("usage: check.py <ID> | --replay FILE | --build-only")
    work = tempfile.mkdtemp(prefix="vh-")
    try:
        return run(args, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)

def run(args, work):
    tier = os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED") or "1")
    env = env_go()
    env.update(VH_TIER=tier, VH_SEED=str(seed), VH_OUT=work, TMPDIR=work)
    if args[0] == "--build-only":
        build(work, False)
        build(work, True)
        build_service(work)
        print("harness built")
        return 0
    if args[0] == "--replay":
        path = os.path.abspath(args[1])
        rf = json.load(open(path))
        prop = rf["property"]
        binary = build(work, prop in RACE)
        if prop == "V01":
            env["VH_SERVICE"] = build_service(work)
        if prop in RACE:
            env["GORACE"] = "halt_on_error=1 exitcode=66"
        rc, log = replay(binary, path, env, work, prop, int(os.environ.get("VH_REPEAT", "1")))
        v, msg = replay_verdict(rc, log)
        print(msg)
        if v is None:
            die("replay gave no answer (exit %s)" % rc)
        if v:
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        return 0

    prop = args[0]
    t0 = time.time()
    manifest = json.load(open(os.path.join(ROOT, "MANIFEST.json")))
    entry = next((c for c in manifest["checks"] if c["property"] == prop), {})
    race = prop in RACE
    binary = build(work, race)
    if prop == "V01":
        env["VH_SERVICE"] = build_service(work)
    t_build = time.time() - t0
    shards = SHARDS.get(prop, max(1, min(8, os.cpu_count() or 1)))
    if race:
        env["GORACE"] = "halt_on_error=1 exitcode=66"
        env["GOMAXPROCS"] = "4"
    else:
        env["GOMAXPROCS"] = "2"
    procs = []
    for s in range(shards):
        e = dict(env)
        e.update(VH_PROP=prop, VH_SHARD=str(s), VH_SHARDS=str(shards), VH_DEADLINE_S=str(DEADLINE[tier]))
        logp = os.path.join(work, "log-%d" % s)
        log = open(logp, "w")
        procs.append((s, popen([binary, "-test.run", "^TestFacets$", "-test.timeout", "0"], e, log, work,
                               None if race else ULIMIT_KB.get(prop)), logp))
    end = time.time() + KILL[tier]
    rcs = {}
    for s, p, logp in procs:
        try:
            rcs[s] = p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            rcs[s] = -999
        kill(p)
    merged, errors, viols = {}, [], []
    for s, p, logp in procs:
        rp = os.path.join(work, "result-%d.json" % s)
        if os.path.exists(rp) and rcs[s] in (0, 1):
            for r in json.load(open(rp)) or []:
                if r.get("env_error"):
                    errors.append("%s shard %d: %s" % (r["facet"], s, r["env_error"]))
                m = merged.setdefault(r["facet"], {"evals": 0, "skipped": 0, "hashes": set(), "labels": {}, "samples": [], "rule": r["rule"], "wall": 0})
                m["evals"] += r["evals"]
                m["skipped"] += r["skipped"]
                m["hashes"].update(r["hashes"] or [])
                for k, v in (r["labels"] or {}).items():
                    m["labels"][k] = m["labels"].get(k, 0) + v
                m["samples"] += r["samples"] or []
                m["wall"] = max(m["wall"], r["wall_s"])
                if r.get("violation"):
                    viols.append((r["violation"], None))
            continue
        log = read(logp)
        if rcs[s] == -999:
            errors.append("shard %d did not finish in time" % s)
            continue
        kind, ex = crash_message(log)
        jp = os.path.join(work, "journal-%d.json" % s)
        try:
            rf = json.loads(read(jp))
        except ValueError:
            rf = None
        if kind is None or rf is None:
            errors.append("shard %d ended with %s without explanation:\n%s" % (s, rcs[s], log[-2000:]))
            continue
        rf["message"] = kind + ": " + ex
        viols.append((rf, kind))

    final = []
    # A process that died or hung: confirm and shrink by replaying in fresh processes.
    seen_crash = 0
    for rf, kind in viols:
        if kind is None:
            final.append(rf)
            continue
        seen_crash += 1
        if seen_crash > 2:
            continue
        path = os.path.join(work, "crash.json")
        json.dump(rf, open(path, "w"))
        confirmed, msg = None, ""
        for attempt in range(1 if kind == "hang" else 4):
            rc, log = replay(binary, path, env, work, prop, repeat=1 if kind == "hang" else 5, timeout=120)
            v, msg = replay_verdict(rc, log)
            if v:
                confirmed = True
                break
        blames = REPO_FRAME.search(rf["message"]) is not None or "/repo/" in rf["message"]
        if confirmed:
            if kind != "hang":
                rf = minimise(binary, rf, env, work, prop, 45)
            rf["confirmed"] = True
            final.append(rf)
        elif kind in ("crash", "race") and blames:
            rf["confirmed"] = False
            final.append(rf)
        else:
            errors.append("unconfirmed %s: %s" % (kind, rf["message"][:3000]))

    known = [k for k in known_findings() if k["property"] == prop]
    reported, printed = [], set()
    for rf in final:
        hit = next((k for k in known if k["facet"] == rf["facet"] and re.search(k["match"], rf["message"], re.S)), None)
        if hit:
            line = "KNOWN-FINDING: property=%s %s" % (prop, hit["what"])
            if line not in printed:
                print(line)
                printed.add(line)
        else:
            reported.append(rf)

    total = sum(m["evals"] for m in merged.values())
    distinct = sum(len(m["hashes"]) for m in merged.values())
    skipped = sum(m["skipped"] for m in merged.values())
    samples = []
    for n, m in sorted(merged.items()):
        ss = sorted(m["samples"], key=lambda s: len(json.dumps(s)))
        for s in (ss[:1] + ss[-1:] if len(ss) > 1 else ss):
            samples.append({"facet": n, "case": s})
    ev = {"property": prop, "tier": tier, "seed": seed, "level": entry.get("level", "exploration"),
          "coverage": {"evaluations": total, "distinct_nontrivial": distinct,
                       "rule": " | ".join("%s: %s" % (n, m["rule"]) for n, m in sorted(merged.items())),
                       "samples": samples[:12],
                       "facets": {n: {"evaluations": m["evals"], "distinct_nontrivial": len(m["hashes"]),
                                      "not_run_for_time": m["skipped"], "cases_with_label": dict(sorted(m["labels"].items())),
                                      "wall_s": round(m["wall"], 2)} for n, m in sorted(merged.items())}},
          "assumptions": ["only generated inputs are explored; no claim about others",
                          "harness oracle code, the Go toolchain and rapid are trusted"],
          "wall_s": round(time.time() - t0, 2), "violations": len(reported)}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for n, m in sorted(merged.items()):
        print("%s/%s: %d cases, %d distinct non-trivial%s, %.1fs" % (prop, n, m["evals"], len(m["hashes"]),
              ", %d skipped for time" % m["skipped"] if m["skipped"] else "", m["wall"]))
    print("%s: build %.1fs, total %.1fs" % (prop, t_build, time.time() - t0))
    if reported:
        reported.sort(key=lambda r: len(json.dumps(r["case"])))
        best = {}
        for r in reported:
            best.setdefault(r["facet"], r)
        rdir = os.path.join(ROOT, "replays")
        os.makedirs(rdir, exist_ok=True)
        for fc, r in sorted(best.items()):
            path = os.path.join(rdir, "%s-%s.json" % (prop, fc))
            with open(path, "w") as f:
                json.dump(r, f, indent=1)
                f.write("\n")
            print("facet %s: %s" % (fc, r["message"][:1200]))
            for line in (r.get("trace") or [])[-40:]:
                print("   " + line)
            print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        return 1
    if errors:
        die("\n".join(errors[:5]))
    if total == 0:
        die("nothing was explored")
    return 0

if __name__ == "__main__":
    sys.exit(main())
