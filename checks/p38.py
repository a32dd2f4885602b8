"""The lazily loaded namespace, in generated orders of use, and ufunc_inspector."""
import ctypes
import json
import math
import os
import re
import subprocess
import sys
import tempfile
import numpy as np
import ufunclab as u
from core import Facet, Violation, call
from gen import src

TECHNIQUE = "generated access histories in fresh interpreters against a table of expected values; parsing the printed report against NumPy's ufunc attributes"
NOTE = ("Orders of access of any of the public names (getattr, from-import, star import, through the submodules, unknown names, repeated access), each "
        "in its own process, after which every accessed function must compute a known value; ufunc_inspector on every ufunc of NumPy and ufunclab, "
        "on gendot compositions, frompyfunc objects and things that are no ufuncs.")

E = math.e
# name -> (arguments, expected) ; a tuple of results is a tuple here
CALLS = {
    "abs_squared": "f(3+4j) == 25", "abssq": "f(3+4j) == 25", "all_same": "f([2,2,2]) and not f([2,2,3])", "argfirst": "f([1,5,9],u.op.GT,4) == 1",
    "argmax": "f([1,7,2]) == 1", "argmin": "f([4,1,2]) == 1", "argminmax": "tuple(f([4,1,9])) == (1,2)",
    "backlash": "f([0.,2.,0.],1.,0.).tolist() == [0.,1.5,.5]", "backlash_sum": "close(f([0.,2.,0.],[1.],[2.],[0.])[0],[0.,1.,1.])",
    "bincount": "f([0,2,2],4).tolist() == [1,0,2,0]", "convert_to_base": "f(1249,8,4).tolist() == [1,4,3,2]",
    "cross2": "f([1,2],[3,4]) == -2", "cross3": "f([1,0,0],[0,1,0]).tolist() == [0,0,1]", "deadzone": "f([-3.,0.,3.],-1.,1.).tolist() == [-2.,0.,2.]",
    "debye1": "close(f(1.), 0.7775046341122482)", "erfcx": "close(f(0.), 1.)", "expint1": "close(f(1.), 0.21938393439552029)",
    "exponential_ramp": "close(f(0.,1.), 1.)", "fillnan1d": "f([1.,np.nan,3.]).tolist() == [1.,2.,3.]", "first": "f([1,5,9],u.op.GT,4,0) == 5",
    "gini": "close(f([1.,2.,3.],False), 2/9)", "gmean": "close(f([1.,4.]), 2.)", "gmeanw": "close(f([1.,4.],[1.,1.]), 2.)", "hmean": "close(f([1.,3.]), 1.5)",
    "hmeanw": "close(f([1.,3.],[1.,1.]), 1.5)", "hyperbolic_ramp": "close(f(0.,1.), 1.)", "hypot3": "close(f(2.,3.,6.), 7.)",
    "hysteresis_relay": "f([0.,2.,0.,-2.],-1.,1.,0.,5.,0.).tolist() == [0.,5.,5.,0.]", "inv_yeo_johnson": "close(f(3.,1.), 3.)",
    "invsmoothstep3": "close(f(.5,0.,1.,0.,1.), .5)", "issnan": "not f(np.nan)", "kbnsum": "f([1e100,1.,-1e100]) == 1.",
    "linear_interp1d": "f(1.5,[1.,2.],[10.,20.]) == 15.", "linearstep": "close(f(.25,0.,1.,0.,1.), .25)", "log1p_doubledouble": "close(f(1+0j), math.log(2))",
    "log1p_theorem4": "close(f(1+0j), math.log(2))", "log_logistic": "close(f(0.), -math.log(2))", "logexpint1": "close(f(1.), math.log(0.21938393439552029))",
    "logfactorial": "close(f(5), math.log(120))", "loggamma1p": "close(f(3.), math.log(6))", "logistic": "close(f(0.), .5)", "logistic_deriv": "close(f(0.), .25)",
    "mad": "close(f([1.,2.,3.],False), 8/9)", "max_argmax": "tuple(f([4,9,1])) == (9,1)", "meanvar": "close(f([1.,2.,3.],0), [2., 2/3])",
    "min_argmin": "tuple(f([4,1,9])) == (1,1)", "minmax": "f([4,1,9]).tolist() == [1,9] if isinstance(f([4,1,9]),np.ndarray) else tuple(f([4,1,9])) == (1,9)",
    "multivariate_logbeta": "close(f([1.,2.]), math.log(.5))", "nan_to_num": "f(np.nan, 7.) == 7.", "next_greater": "f(1.) == math.nextafter(1., 2.)",
    "next_less": "f(1.) == math.nextafter(1., 0.)", "nextn_greater": "f(1.,2)[0] == math.nextafter(1., 2.)", "nextn_less": "f(1.,2)[0] == math.nextafter(1., 0.)",
    "one_hot": "f(1,3).tolist() == [0,1,0]", "ordered": "f([1,2,2],u.op.LE) == True", "peaktopeak": "f([3,9,4]) == 6", "pearson_corr": "close(f([1.,2.,4.],[2.,4.,8.]), 1.)",
    "percentileofscore": "f([1,2,3,4],3,u.op.KIND_WEAK) == 75. and f([1,2,3,4],3,u.op.KIND_STRICT) == 50. and f([1,2,3,3],3,u.op.KIND_MEAN) == 75. "
                         "and close(f([1,2,3,3,4],3,u.op.KIND_RANK), 70.)",
    "pmean": "close(f([1.,7.],2.), 5.)", "pmeanw": "close(f([1.,7.],2.,[1.,1.]), 5.) if False else close(f([1.,7.],[1.,1.],2.), 5.)", "pow1pm1": "close(f(1.,3.), 7.)",
    "rmad": "close(f([1.,2.,3.],False), 4/9)", "rms": "close(f([1.,7.]), 5.)", "searchsortedl": "f([1,2,2,3],2) == 1", "searchsortedr": "f([1,2,2,3],2) == 3",
    "smoothstep3": "close(f(.5,0.,1.,0.,1.), .5)", "smoothstep5": "close(f(.5,0.,1.,0.,1.), .5)", "softmax": "close(f([0.,0.]), [.5,.5])",
    "sosfilter": "f([[1.,0,0,1,0,0]],[1.,2.]).tolist() == [1.,2.]", "sosfilter_ic": "f([[1.,0,0,1,0,0]],[1.,2.],[[0.,0.]])[0].tolist() == [1.,2.]",
    "sosfilter_ic_contig": "f(np.array([[1.,0,0,1,0,0]]),np.array([1.,2.]),np.zeros((1,2)))[0].tolist() == [1.,2.]", "step": "f([-1.,0.,1.],0.,3.,4.,5.).tolist() == [3.,4.,5.]",
    "swish": "close(f(2.,1.), 2/(1+math.exp(-2)))", "trapezoid_pulse": "f([-1.,2.5,9.],0.,1.,4.,5.,3.).tolist() == [0.,3.,0.]",
    "tri_area": "close(f([[0.,0.],[1.,0.],[0.,1.]]), .5)", "tri_area_indexed": "close(f([[0.,0.],[1.,0.],[0.,1.]],[0,1,2]), .5)", "unwrap": "close(f([0.,3.],4.), [0.,-1.])",
    "vdot": "f([1.,2.],[3.,4.]) == 11.", "vnorm": "close(f([3.,4.],2.), 5.)", "wjaccard": "close(f([1.,2.],[2.,2.]), .75)", "yeo_johnson": "close(f(3.,1.), 3.)",
    "gendot": "f(np.minimum,np.maximum)([1.,2.5,.3,1.9,3.,1.8],[.5,1.1,.9,2.1,.3,3.]) == 1.9", "ufunc_inspector": "callable(f)", "__version__": "isinstance(f,str) and f[0].isdigit()",
    "op": "(u.argfirst([1,3,2,3],f.GT,2),u.argfirst([1,3,2],f.GE,2),u.argfirst([4,3,2],f.LT,3),u.argfirst([4,3,2],f.LE,3),u.argfirst([4,3,2],f.EQ,2),u.argfirst([4,4,2],f.NE,4)) == (1,1,2,1,2,2)",
    "normal": "close(f.cdf(0.), .5) and close(f.sf(0.), .5) and close(f.logcdf(0.), -math.log(2)) and close(f.logsf(0.), -math.log(2))",
    "semivar": "[float(f.exponential(0.,1.,2.,3.)), float(f.linear(9.,1.,2.,3.)), float(f.spherical(9.,1.,2.,3.)), float(f.parabolic(9.,1.,2.,3.))] == [1.,2.,2.,2.]",
}
MODS = ["_minmax", "_first", "_means", "_wrapped", "_step", "semivar", "normal", "_gendot_wrap", "_mad", "_vnorm", "_searchsorted"]
BAD = ["nosuch", "_name_to_mod", "np", "_np", "cdf", "Erfcx", "argmin_", "", "gmean2", "_LT"]

PROG = r'''
import sys, json, math
steps, calls = json.load(sys.stdin)
import numpy as np
import importlib
import ufunclab as u
def close(a, b):
    return bool(np.allclose(np.asarray(a, dtype=complex), np.asarray(b, dtype=complex), rtol=1e-9, atol=1e-12))
seen = {}
def bad(msg):
    print("BAD " + msg)
    sys.exit(0)
for kind, name in steps:
    try:
        if kind == "getattr":
            v = getattr(u, name)
        elif kind == "from":
            ns = {}
            exec(f"from ufunclab import {name}", ns)
            v = ns[name]
        elif kind == "star":
            ns = {}
            exec("from ufunclab import *", ns)
            miss = [n for n in dir(u) if n not in ns]
            if miss:
                bad(f"star import does not define {miss}")
            v = None
        elif kind == "module":
            importlib.import_module("ufunclab." + name)
            continue
        elif kind == "dir":
            d = dir(u)
            if d != sorted(d) or len(set(d)) != len(d) or d != list(u.__all__):
                bad(f"dir(ufunclab) is {d}")
            continue
        elif kind == "bad":
            try:
                getattr(u, name)
            except AttributeError:
                if hasattr(u, name):
                    bad(f"hasattr(ufunclab, {name!r}) is true")
                continue
            bad(f"ufunclab.{name} exists")
    except Exception as e:
        bad(f"{kind} {name}: {type(e).__name__}: {e}")
    if v is None:
        continue
    if name in seen and seen[name] is not v:
        bad(f"{kind} {name}: a different object than before")
    seen[name] = v
    if isinstance(v, np.ufunc) and v.__name__ != name and name != "erfcx":
        bad(f"ufunclab.{name} is the ufunc {v.__name__}")
for name in calls:
    f = seen[name]
    try:
        with np.errstate(all="ignore"):
            ok = bool(eval(CALLS[name]))
    except Exception as e:
        bad(f"{name}: {CALLS[name]}: {type(e).__name__}: {e}")
    if not ok:
        bad(f"{name}: {CALLS[name]} is false")
print("OK")
'''


def case(s):
    names = sorted(CALLS)
    steps = []
    for _ in range(s.rng(1, 14)):
        k = s.byte() % 16
        if k < 9:
            steps.append(["getattr" if k < 5 else "from", s.pick(names)])
        elif k < 11 and steps:
            again = s.pick([t for t in steps])
            steps.append([s.pick(["getattr", "from"]), again[1]] if again[0] in ("getattr", "from") else again)
        elif k == 11:
            steps.append(["bad", s.pick(BAD)])
        elif k == 12:
            steps.append(["module", s.pick(MODS)])
        elif k == 13:
            steps.append(["dir", ""])
        elif k == 14 and s.chance(1, 3):
            steps.append(["star", ""])
        else:
            steps.append(["getattr", s.pick(["op", "semivar", "normal", "first", "percentileofscore"])])
    return {"steps": steps}


def body(c):
    calls = []
    for k, n in c["steps"]:
        if k in ("getattr", "from") and n not in calls:
            calls.append(n)
    prog = "CALLS = " + repr({n: CALLS[n] for n in calls}) + "\n" + PROG
    env = dict(os.environ, PYTHONPATH=os.path.dirname(os.path.dirname(u.__file__)))
    r = subprocess.run([sys.executable, "-B", "-W", "ignore", "-c", prog], input=json.dumps([c["steps"], calls]), capture_output=True,
                       text=True, cwd=tempfile.gettempdir(), env=env, timeout=300)
    out = r.stdout.strip().splitlines()
    if r.returncode != 0:
        raise Violation(f"after {c['steps']}: exit status {r.returncode}: {r.stderr[-300:]}")
    if not out or out[-1] != "OK":
        raise Violation(f"after {c['steps']}: {out[-1] if out else 'no output'}")
    return f"{min(len(calls), 8)} names" if calls else ""


def nbody(c):
    """every public name has an entry in the table, and the other way round"""
    d = set(dir(u))
    miss = [n for n in CALLS if n not in d]
    if miss:
        raise Violation(f"dir(ufunclab) does not list {miss}")
    for n in sorted(d):
        if not hasattr(u, n):
            raise Violation(f"dir(ufunclab) lists {n}, which is not there")
    return "listed"


# ---------------------------------------------------------------- ufunc_inspector
_libc = ctypes.CDLL(None)


def printed(f):
    """what ufunc_inspector(f) prints (it uses C stdio)"""
    insp = u.ufunc_inspector
    sys.stdout.flush()
    _libc.fflush(None)
    with tempfile.TemporaryFile() as t:
        old = os.dup(1)
        os.dup2(t.fileno(), 1)
        try:
            r = call(insp, f)
        finally:
            _libc.fflush(None)
            sys.stdout.flush()
            os.dup2(old, 1)
            os.close(old)
        t.seek(0)
        return r, t.read().decode()


def pool():
    r = []
    for mod in (np, u, u.normal, u.semivar):
        for n in sorted(set(dir(mod))):
            f = getattr(mod, n, None)
            for g in (f, getattr(f, "gufunc", None), getattr(f, "_bincount", None), getattr(f, "_bincountw", None)):
                if isinstance(g, np.ufunc) and g not in r:
                    r.append(g)
    r.append(np.frompyfunc(lambda a, b: a, 2, 1))
    r.append(np.frompyfunc(lambda *a: a, 5, 2))
    for a, b in ((np.minimum, np.maximum), (np.equal, np.logical_and), (np.multiply, u.kbnsum), (np.add, u.argmin)):
        r.append(u.gendot(a, b))
    return r


def sigparts(sig):
    a, b = sig.replace(" ", "").split("->")
    return [[d for d in p.split(",") if d] for p in re.findall(r"\(([^)]*)\)", a) + re.findall(r"\(([^)]*)\)", b)]


POOL = []
OTHER = [None, 1, 2.5, "add", len, np, np.ndarray, np.add.reduce, {}, [np.add], u.op, u.bincount, np.vectorize(len), np.ufunc]


def ibody(c):
    if not POOL:
        POOL.extend(pool())
    lab = ""
    for i, other in c["seq"]:
        if other:
            o = OTHER[i % len(OTHER)]
            r, out = printed(o)
            if "not a ufunc" not in out.lower():
                raise Violation(f"ufunc_inspector({o!r}) printed {out!r}")
            continue
        f = POOL[i % len(POOL)]
        r, out = printed(f)
        lines = out.splitlines()
        nm = f.__name__ if not f.__name__.endswith("(vectorized)") else None
        w = f"ufunc_inspector({f!r}): "
        head = re.match(r"'(.*)' is a (g?)ufunc(?: with signature '(.*)')?\.", lines[0] if lines else "")
        if not head:
            raise Violation(w + f"printed {out[:200]!r}")
        if nm and head[1] != nm:
            raise Violation(w + f"name {head[1]!r}, expected {nm!r}")
        if bool(head[2]) != (f.signature is not None) or f.signature and head[3].replace(" ", "") != f.signature.replace(" ", ""):
            raise Violation(w + f"printed {lines[0]!r}; the signature is {f.signature}")
        t = re.search(r"^nin = (\d+), nout = (\d+)$", out, re.M)
        if not t or (int(t[1]), int(t[2])) != (f.nin, f.nout):
            raise Violation(w + f"{t and t[0]!r}, but nin = {f.nin}, nout = {f.nout}")
        t = re.search(r"^ntypes = (\d+)$", out, re.M)
        if not t or int(t[1]) != len(f.types):
            raise Violation(w + f"{t and t[0]!r}, but there are {len(f.types)} loops")
        if f.nout == 1 and 1 <= f.nin <= 4:
            got = re.findall(r"^ *(\d+): +\(?([\d, ]+)\)? -> +(\d+) +\((\S+)\)", out, re.M)
            if [g[3] for g in got] != list(f.types):
                raise Violation(w + f"loop types {[g[3] for g in got]}, expected {f.types}")
            if [int(g[0]) for g in got] != list(range(len(f.types))):
                raise Violation(w + f"loops are numbered {[g[0] for g in got]}")
            for g in got:
                nums = [int(q) for q in g[1].split(",")] + [int(g[2])]
                want = [np.dtype(q).num for q in g[3].replace("->", "")]
                if nums != want:
                    raise Violation(w + f"type numbers {nums} for {g[3]}, expected {want}")
        if f.signature is not None:
            parts = sigparts(f.signature)
            lab = "gufunc"
            t = re.search(r"core_num_dims .*= \[(.*)\]$", out, re.M)
            if t and [int(q) for q in t[1].split(",")] != [len(p) for p in parts]:
                raise Violation(w + f"core_num_dims [{t[1]}] for {f.signature}")
            seen = []
            for p in parts:
                for d in p:
                    if d not in seen:
                        seen.append(d)
            t = re.search(r"distinct names in sig\) = (\d+)$", out, re.M)
            if t and int(t[1]) != len(seen):
                raise Violation(w + f"{t[1]} distinct names in {f.signature}")
            t = re.search(r"core_dim_ixs .*?=((?: \[[\d, ]*\])+)$", out, re.M)
            if t:
                got = [[int(q) for q in b.split(",") if q.strip()] for b in re.findall(r"\[([^\]]*)\]", t[1])]
                if got != [[seen.index(d) for d in p] for p in parts]:
                    raise Violation(w + f"core_dim_ixs {got} for {f.signature}")
            t = re.search(r"core_dim_sizes .*= \[(.*)\]$", out, re.M)
            if t and [int(q) for q in t[1].split(",")] != [int(d.strip("?")) if d.strip("?").isdigit() else -1 for d in seen]:
                raise Violation(w + f"core_dim_sizes [{t[1]}] for {f.signature}")
        else:
            lab = lab or "ufunc"
    return lab


def icase(s):
    return {"seq": [[s.bits(2), s.chance(1, 6)] for _ in range(s.rng(1, 4))]}


def facets(tier):
    return [Facet("listed", [{"all": 1}], nbody, 1, 1, enum=True, rule="all names are compared"),
            Facet("access orders", src(case, 120), body, 320, 6000, rule="some name was accessed and its function called; labelled by how many"),
            Facet("every ufunc", [{"seq": [[i, False]]} for i in range(230)], ibody, 230, 230, enum=True, rule="a report on a ufunc was parsed"),
            Facet("inspector", src(icase, 40), ibody, 1500, 20000, rule="a report on a ufunc was parsed", evals=lambda c: len(c["seq"]))]
