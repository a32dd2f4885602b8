"""Entry point: main.py PROPERTY [quick|thorough] [--replay FILE] [--shards N] [--only FACET,..]"""
import glob
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import time

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build as B  # noqa: E402

CRASH = {signal.SIGSEGV, signal.SIGBUS, signal.SIGFPE, signal.SIGABRT, signal.SIGILL,
         signal.SIGTRAP}
ASAN_EXIT = 99


def known(pid):
    """Probe names of the listed, unrepaired findings of this property."""
    out = []
    try:
        for line in open(os.path.join(VERIF, "known_findings.txt")):
            m = re.match(r"finding: property=(\S+) probe=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    except OSError:
        pass
    return out


def worker_env(asan):
    env = B._env()
    env["OMP_NUM_THREADS"] = "1"
    if asan:
        lib = subprocess.run(["gcc", "-print-file-name=libasan.so"], capture_output=True,
                             text=True).stdout.strip()
        cxx = subprocess.run(["gcc", "-print-file-name=libstdc++.so"], capture_output=True,
                             text=True).stdout.strip()
        env["LD_PRELOAD"] = f"{os.path.realpath(lib)} {os.path.realpath(cxx)}"
        env["ASAN_OPTIONS"] = (f"detect_leaks=0:exitcode={ASAN_EXIT}:abort_on_error=0:"
                               "allocator_may_return_null=1:handle_segv=1:handle_sigfpe=1:"
                               "detect_stack_use_after_return=0")
        env["PYTHONMALLOC"] = "malloc"
    return env


def run_worker(spec, scratch, tag, asan, timeout=None, wait=True):
    sp = os.path.join(scratch, f"spec-{tag}.json")
    spec = dict(spec, out=os.path.join(scratch, f"out-{tag}.json"),
                journal=os.path.join(scratch, f"journal-{tag}"))
    json.dump(spec, open(sp, "w"))
    err = open(os.path.join(scratch, f"err-{tag}"), "w")
    p = subprocess.Popen([sys.executable, "-B", "-W", "ignore", os.path.join(HERE, "worker.py"), sp],
                         stdout=err, stderr=err, env=worker_env(asan), cwd=scratch)
    p.spec = spec
    p.errfile = err.name
    if wait:
        try:
            p.wait(timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            p.timed_out = True
    return p


def outcome(p):
    """-> ('ok'|'violation', result) | ('crash', text) | ('error', text)"""
    rc = p.returncode
    try:
        txt = open(p.errfile, errors="replace").read()
    except OSError:
        txt = ""
    if rc == 0 and os.path.exists(p.spec["out"]):
        r = json.load(open(p.spec["out"]))
        return r["status"], r
    if rc < 0 and signal.Signals(-rc) in CRASH:
        return "crash", f"{signal.Signals(-rc).name}: {txt[:2500]}"
    if rc == ASAN_EXIT:
        i = txt.find("ERROR: AddressSanitizer")
        return "crash", txt[max(0, i):i + 3000]
    return "error", f"worker ended with {rc}\n{txt[-4000:]}"


def read_journal(p):
    try:
        b = open(p.spec["journal"], "rb").read()
        n = int(b[:10])
        return json.loads(b[10:10 + n])
    except (OSError, ValueError):
        return None


def main():
    args = [a for a in sys.argv[1:]]
    pid = args.pop(0).upper()
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    nsh = int(os.environ.get("VERIF_SHARDS", "8"))
    only = None
    while args:
        a = args.pop(0)
        if a in ("quick", "thorough"):
            tier = a
        elif a == "--replay":
            replay = args.pop(0)
        elif a == "--shards":
            nsh = int(args.pop(0))
        elif a == "--only":
            only = args.pop(0).split(",")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    modsrc = open(os.path.join(VERIF, "checks", pid.lower() + ".py")).read()
    asan = bool(re.search(r"^BUILD *= *['\"]asan['\"]", modsrc, re.M))
    m = re.search(r"^BUDGET *= *\(([\d.]+) *, *([\d.]+)\)", modsrc, re.M)
    budget = (float(m.group(1)), float(m.group(2))) if m else (200.0, 700.0)
    budget = budget[0] if tier == "quick" else budget[1]
    scratch, site = B.build("asan" if asan else "release")
    procs = []
    try:
        spec = {"property": pid, "tier": tier, "seed": seed, "site": site, "nshards": nsh,
                "budget": budget, "only": only}
        if replay:
            r = json.load(open(replay))
            p = run_worker(dict(spec, replay=r), scratch, "replay", asan, timeout=300)
            k, res = outcome(p)
            print(k, res if isinstance(res, str) else res.get("msg", ""))
            if k in ("crash", "violation"):
                print(f"VIOLATION property={pid} replay={replay}")
                return 1
            return 0 if k == "ok" else 2

        for kf, text in known(pid):
            p = run_worker(dict(spec, replay={"probe": kf}), scratch, "kf", asan, timeout=120)
            k, res = outcome(p)
            if k in ("violation", "crash"):
                print(f"KNOWN-FINDING: property={pid} {text}")
            elif k == "error":
                print(res)
                return 2

        procs = [run_worker(dict(spec, shard=i), scratch, str(i), asan, wait=False)
                 for i in range(nsh)]
        hard = budget + 150
        pending = set(range(nsh))
        results = {}
        t1 = time.time()
        first_bad = None
        while pending:
            time.sleep(0.05)
            for i in sorted(pending):
                if procs[i].poll() is not None:
                    pending.discard(i)
                    results[i] = outcome(procs[i])
                    if results[i][0] in ("violation", "crash") and first_bad is None:
                        first_bad = time.time()
            if first_bad and pending and time.time() - first_bad > 2:
                for i in pending:
                    procs[i].kill()
                    procs[i].wait()
                pending.clear()
            if pending and time.time() - t1 > hard:
                for i in sorted(pending):
                    procs[i].kill()
                    procs[i].wait()
                    results[i] = ("hang", "no answer")
                pending.clear()

        wall = time.time() - t0
        # violation?
        bad = None
        for i in sorted(results):
            if results[i][0] == "violation":
                r = results[i][1]
                cand = {"facet": r["facet"], "case": r["case"], "msg": r["msg"]}
                if bad is None or len(json.dumps(cand["case"])) < len(json.dumps(bad["case"])):
                    bad = cand
        if bad is None:
            for i in sorted(results):
                if results[i][0] == "crash":
                    j = read_journal(procs[i]) or {"facet": None, "case": None}
                    bad = {"facet": j["facet"], "case": j["case"],
                           "msg": "the process running the code crashed: " + results[i][1]}
                    break
        if bad is None:
            for i in sorted(results):
                if results[i][0] == "hang":
                    # a small case that never ends, twice, in fresh processes
                    j = read_journal(procs[i])
                    hung = 0
                    if j:
                        for t in range(2):
                            p = run_worker(dict(spec, replay=j), scratch, f"hang{t}", asan,
                                           timeout=60)
                            hung += bool(getattr(p, "timed_out", False))
                    if hung == 2:
                        bad = {"facet": j["facet"], "case": j["case"],
                               "msg": "the call does not return (60 s, twice)"}
                    else:
                        print("a worker did not finish in time")
                        return 2
                    break
        if bad is None:
            for i in sorted(results):
                if results[i][0] == "error":
                    print(results[i][1])
                    return 2

        write_evidence(pid, tier, seed, [results[i][1] for i in sorted(results)
                                         if isinstance(results[i][1], dict)],
                       wall, 1 if bad else 0, nsh)
        if bad:
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            h = hashlib.sha1(json.dumps(bad, sort_keys=True).encode()).hexdigest()[:10]
            path = os.path.join(VERIF, "replays", f"{pid}-{h}.json")
            json.dump(dict(bad, property=pid, seed=seed, tier=tier), open(path, "w"), indent=1)
            print(bad["msg"][:3000])
            print("facet:", bad["facet"], "case:", json.dumps(bad["case"])[:1500])
            print(f"VIOLATION property={pid} replay={path}")
            return 1
        return 0
    finally:
        for p in procs:
            if p.poll() is None:
                p.kill()
                p.wait()
        shutil.rmtree(scratch, ignore_errors=True)


def write_evidence(pid, tier, seed, rs, wall, nviol, nsh):
    fac = {}
    hs = set()
    samples = []
    for r in rs:
        for n, s in r["facets"].items():
            d = fac.setdefault(n, {"cases": 0, "evaluations": 0, "labels": {}, "rule": s["rule"],
                                   "out_of_time": 0})
            d["cases"] += s["cases"]
            d["evaluations"] += s["evaluations"]
            d["out_of_time"] += s["out_of_time"]
            for k, v in s["labels"].items():
                d["labels"][k] = d["labels"].get(k, 0) + v
        hs.update(r["hashes"])
        samples.extend(r["samples"])
    pick, seen = [], {}
    for s in samples:
        if seen.get(s["facet"], 0) < 2:
            seen[s["facet"]] = seen.get(s["facet"], 0) + 1
            pick.append(s)
    rule = "Hypothesis-generated cases, one JSON value each, in %d shards. " % nsh
    rule += "Non-trivial per facet: " + "; ".join(f"{n}: {d['rule']}" for n, d in fac.items())
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": sum(d["cases"] for d in fac.values()),
                       "distinct_nontrivial": len(hs), "rule": rule,
                       "oracle_comparisons": sum(d["evaluations"] for d in fac.values()),
                       "facets": {n: {k: v for k, v in d.items() if k != "rule"}
                                  for n, d in fac.items()},
                       "samples": pick[:40]},
          "wall_s": round(wall, 2), "violations": nviol}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", pid + ".json.tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.rename(tmp, os.path.join(VERIF, "evidence", pid + ".json"))


if __name__ == "__main__":
    try:
        rc = main()
    except B.BuildError as e:
        print("build failed:", e)
        rc = 3
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
