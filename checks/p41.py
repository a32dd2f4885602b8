"""Concurrent calls from several threads."""
import json
import os
import subprocess
import sys
import threading
import numpy as np
import ufunclab as u
from core import Facet, Violation
import reg
from arr import same, poison
from gen import src
from p38 import CALLS

BUDGET = (200, 700)
TECHNIQUE = "generated sets of calls run by several threads at once (NumPy releases the GIL in the loops), each compared with its own result when run alone; first uses of the namespace from threads of a fresh interpreter"
NOTE = ("Every function and loop (no object loops, which keep the GIL), two to four threads, at least two of them in the same function with other or the same operands and lengths, "
        "sometimes one whose call raises; 6 to 20 rounds of calls of about 2000 core problems. The schedules are those of the operating system on 8 busy cores, so that a short race can be missed.")
NAMES = [n for n in reg.NAMES if any("O" not in t for t in reg.LOOPS[n])]


def one(s, n):
    for _ in range(8):
        c = reg.gen_case(s, [n], dmax=9, batches=[[], [2], [3], [4], [2, 3]])
        if "O" not in c["t"]:
            return c
    return None


def mkcase(s, n):
    calls = [one(s, n) for _ in range(s.rng(2, 3))]
    if s.chance(1, 2):
        calls.append(one(s, s.pick(NAMES)))
    calls = [c for c in calls if c]
    if len(calls) > 1 and s.chance(1, 3):
        calls[1] = dict(calls[0])
    for c in calls:
        c["rep"] = s.chance(1, 2)
    return {"calls": calls, "raising": s.chance(1, 3), "rounds": s.rng(6, 20), "rows": s.pick([600, 1500, 3000])}


def enlarged(c, rows):
    """the operands of a case, repeated along a new axis before or after those of the batch"""
    xs = reg.build(c)
    k = max(1, max([x.size for x in xs] + [int(np.prod(sh)) for sh in reg.out_shapes(c)]))
    r = max(8, min(rows, 60000 // k))
    nb = len(reg.batch_of(c))
    res = []
    for x, p in zip(xs, reg.SIG[c["f"]][0]):
        core = x.shape[x.ndim - len(p):]
        lead = (1,) * (nb - (x.ndim - len(p))) + x.shape[:x.ndim - len(p)]
        one, many = ((lead + (1,), lead + (r,)) if c["rep"] else ((1,) + lead, (r,) + lead))
        res.append(np.ascontiguousarray(np.broadcast_to(x.reshape(one + core), many + core)))
    return r, res


def outs_of(c, r):
    res = []
    nb = len(reg.batch_of(c))
    for sh, t in zip(reg.out_shapes(c), reg.split(c["t"])[1]):
        sh = sh[:nb] + (r,) + sh[nb:] if c["rep"] else (r,) + sh
        res.append(np.zeros(sh, dtype=t) if c["f"] in reg.ACC else poison(sh, t))
    return tuple(res)


def body(c):
    jobs = []
    for k in c["calls"]:
        r, xs = enlarged(k, c["rows"])
        try:
            o = outs_of(k, r)
            with np.errstate(all="ignore"):
                reg.FUNCS[k["f"]](*xs, out=o)
        except Exception:
            continue
        jobs.append((k, xs, o, r))
    if len(jobs) < 2:
        return ""
    bad = []
    gate = threading.Barrier(len(jobs) + (1 if c["raising"] else 0))
    done = threading.Event()

    def work(k, xs, want, r):
        f = reg.FUNCS[k["f"]]
        try:
            pool = [outs_of(k, r) for _ in range(2)]
            gate.wait(60)
            with np.errstate(all="ignore"):
                for i in range(c["rounds"]):
                    o = pool[i % 2]
                    if k["f"] in reg.ACC:
                        for a in o:
                            a[...] = 0
                    f(*xs, out=o)
                    for j, (a, b) in enumerate(zip(o, want)):
                        if a.tobytes() != b.tobytes() and not same(a, b):
                            bad.append(f"{k['f']}[{k['t']}]: output {j} of call {i} differs from the call made alone")
                            return
        except threading.BrokenBarrierError:
            pass
        except Exception as e:
            bad.append(f"{k['f']}[{k['t']}] raised {type(e).__name__}: {e}")

    def raising():
        k, b = np.arange(2000).reshape(-1, 1) % 50, np.where(np.arange(40) == 39, 0, 7)
        try:
            gate.wait(60)
            while not done.is_set():
                try:
                    u.convert_to_base(k, b, 5)
                    bad.append("convert_to_base(k, 0, 5) did not raise ValueError")
                    return
                except ValueError:
                    pass
        except threading.BrokenBarrierError:
            pass
        except Exception as e:
            bad.append(f"convert_to_base(k, 0, 5) raised {type(e).__name__}: {e}")
    th = [threading.Thread(target=work, args=j) for j in jobs]
    rt = threading.Thread(target=raising) if c["raising"] else None
    for t in th + ([rt] if rt else []):
        t.start()
    for t in th:
        t.join()
    done.set()
    if rt:
        rt.join()
    if bad:
        raise Violation(f"{bad[0]}; threads: " + ", ".join(f"{k['f']}[{k['t']}] of shapes {[x.shape for x in xs]}" for k, xs, _, _ in jobs))
    return jobs[0][0]["f"]


# ------------------------------------------------------------------ first use of the namespace, from threads
PROG = r'''
import sys, json, threading, math
lists, calls = json.load(sys.stdin)
sys.setswitchinterval(1e-5)
import numpy as np
import ufunclab as u
def close(a, b):
    return bool(np.allclose(np.asarray(a, dtype=complex), np.asarray(b, dtype=complex), rtol=1e-9, atol=1e-12))
gate = threading.Barrier(len(lists))
bad, seen, lock = [], {}, threading.Lock()
def work(names):
    gate.wait()
    for n in names:
        try:
            v = getattr(u, n)
            with lock:
                if seen.setdefault(n, v) is not v:
                    bad.append(f"{n} is two objects")
            if not eval(calls[n], {"u": u, "np": np, "math": math, "close": close, "f": v}):
                bad.append(f"{n}: {calls[n]} does not hold")
        except Exception as e:
            bad.append(f"{n}: {type(e).__name__}: {e}")
T = [threading.Thread(target=work, args=(l,), daemon=True) for l in lists]
[t.start() for t in T]
[t.join(60) for t in T]
if any(t.is_alive() for t in T):
    bad.append("deadlock")
print(json.dumps(bad[:3]))
sys.stdout.flush()
import os
os._exit(0)
'''


def icase(s):
    names = sorted(CALLS)
    some = [s.pick(names) for _ in range(s.rng(1, 12))]
    r = []
    for _ in range(s.rng(2, 6)):
        l = list(some)
        for i in range(len(l) - 1, 0, -1):
            if s.chance(1, 3):
                j = s.rng(0, i)
                l[i], l[j] = l[j], l[i]
        r.append(l + [s.pick(names) for _ in range(s.rng(0, 4))])
    return {"lists": r}


def ibody(c):
    need = {n: CALLS[n] for l in c["lists"] for n in l}
    p = subprocess.run([sys.executable, "-c", PROG], input=json.dumps([c["lists"], need]), capture_output=True, text=True, timeout=300,
                       env=dict(os.environ, PYTHONPATH=os.pathsep.join(sys.path)), cwd="/")
    if p.returncode:
        raise Violation(f"threads that use {c['lists']} first: exit status {p.returncode}: {p.stderr[-300:]}")
    bad = json.loads(p.stdout)
    if bad:
        raise Violation(f"threads that use {c['lists']} first: {bad[0]}")
    return f"{len(c['lists'])} threads"


def facets(tier):
    st = [src((lambda n: lambda s: mkcase(s, n))(n), 2400) for n in NAMES]
    return [Facet("calls", st, body, 40 * len(NAMES), 400 * len(NAMES), rule="at least two calls ran concurrently; labelled by function"),
            Facet("first use", src(icase, 400), ibody, 80, 2000, rule="every case counts; labelled by the number of threads")]
