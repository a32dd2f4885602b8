"""The wrapper generator tools/uwrap: wrappers with named parameters call the function faithfully."""
import importlib.util
import inspect
import keyword
import os
import subprocess
import sys
import tempfile
import numpy as np
import ufunclab as u
from core import Facet, Violation
import reg
from arr import poison, pl, lay
from gen import src

BUDGET = (200, 500)
REPO = os.environ.get("VERIF_REPO", "/repo")
TOOL = os.path.join(REPO, "tools", "uwrap", "uwrap.py")
TECHNIQUE = "differential: generated calls of generated wrappers, by position and by keyword, against direct calls; tuples of axes against one flattened axis"
NOTE = ("The script is run once per shard and its module imported; every wrapper, every loop, parameters by position or by keyword in any order, defaults left out or given, out, where, axis, axes, "
        "keepdims, dtype. For the set reductions axis is None, an integer or a tuple. Then wrappers generated with other names, parameter names and default values, and parameter lists that must be rejected.")
SET = ["all_same", "gmean", "hmean", "mad", "peaktopeak", "rmad"]
RESERVED = ["out", "casting", "order", "dtype", "subok", "signature", "extobj", "where", "axis", "axes", "keepdims"]
DEFAULTS = {"vnorm": {1: 2}, "step": {1: 0, 2: 0, 3: 0.5, 4: 1}, "linearstep": {1: 0, 2: 1, 3: 0, 4: 1}, "smoothstep3": {1: 0, 2: 1, 3: 0, 4: 1}, "smoothstep5": {1: 0, 2: 1, 3: 0, 4: 1}}
NAMES = [n for n in reg.NAMES if isinstance(getattr(u, n, None), np.ufunc)]


def load(path, name):
    spec = importlib.util.spec_from_file_location(name, path)
    m = importlib.util.module_from_spec(spec)
    old, sys.dont_write_bytecode = sys.dont_write_bytecode, True
    try:
        spec.loader.exec_module(m)
    finally:
        sys.dont_write_bytecode = old
    return m


_cache = {}


def wrappers():
    if "w" not in _cache:
        with tempfile.TemporaryDirectory() as d:
            p = subprocess.run([sys.executable, TOOL], cwd=d, capture_output=True, text=True, timeout=120,
                               env=dict(os.environ, PYTHONPATH=os.pathsep.join(sys.path), PYTHONDONTWRITEBYTECODE="1"))
            if p.returncode:
                _cache["w"] = Violation(f"tools/uwrap/uwrap.py fails: {p.stderr.strip().splitlines()[-1:]}")
            else:
                _cache["w"] = load(os.path.join(d, "wrappers.py"), "wrappers")
    if isinstance(_cache["w"], Violation):
        raise Violation(str(_cache["w"]))
    return _cache["w"]


def tool():
    if "t" not in _cache:
        _cache["t"] = load(TOOL, "uwrap_tool")
    return _cache["t"]


def params_of(f):
    """the parameters in the heading of the documentation"""
    head = f.__doc__.split("\n")[2].strip()
    name, rest = head.split("(", 1)
    if name != f.__name__ or not rest.endswith("/, ...)"):
        raise Violation(f"the documentation of {f.__name__} starts with {head!r}")
    ps = [q.strip() for q in rest[:-len("/, ...)")].split(",") if q.strip()]
    if len(ps) != f.nin or len(set(ps)) != len(ps):
        raise Violation(f"the documentation of {f.__name__}, which has {f.nin} operands, starts with {head!r}")
    return ps


def wcase(s, n):
    c = reg.gen_case(s, [n], dmax=5)
    c["npos"] = s.byte()
    c["perm"] = s.byte()
    c["out"] = s.byte() % 3 == 2
    c["opt"] = s.byte() % 8
    c["ax"] = s.rng(0, 6)
    c["sub"] = [s.byte() & 1 for _ in range(4)]
    c["drop"] = s.byte() & 1
    c["wh"] = [s.byte() & 1 for _ in range(12)]
    return c


def agree(c, what, got, want, sc):
    if not isinstance(got, tuple):
        got = (got,)
    if not isinstance(want, tuple):
        want = (want,)
    if len(got) != len(want):
        raise Violation(f"{what} returns {len(got)} results, the function {len(want)}")
    for a, b in zip(got, want):
        a, b = np.asarray(a), np.asarray(b)
        if a.dtype == object or b.dtype == object:
            ok = a.shape == b.shape and reg.same(a, b)
        else:
            ok = reg.agree(a, b, sc)
        if not ok:
            raise Violation(f"{what} is {pl(a)}[{a.dtype}{a.shape}], the function gives {pl(b)}[{b.dtype}{b.shape}]")


def attempt(f, *a, **k):
    try:
        with np.errstate(all="ignore"):
            return f(*a, **k), None
    except Exception as e:
        return None, e


def split_args(c, names, xs, dflt):
    """-> positional arguments and keyword arguments"""
    kwonly = [i for i in range(len(names)) if i in dflt]
    free = len(names) - len(kwonly)
    k = c["npos"] % (free + 1)
    rest = list(range(k, len(names)))
    r = c["perm"]
    order = []
    while rest:
        order.append(rest.pop(r % len(rest)))
        r //= 3
    return xs[:k], {names[i]: xs[i] for i in order}


def wbody(c):
    n = c["f"]
    f = reg.FUNCS[n]
    names = params_of(f)
    w = getattr(wrappers(), n, None)
    if w is None:
        raise Violation(f"wrappers.py has no function {n}")
    xs = reg.build(c)
    dflt = DEFAULTS.get(n, {})
    vals = list(xs)
    drop = []
    if c["drop"]:
        for i, v in dflt.items():
            if c["sub"][(i - 1) % 4]:
                drop.append(i)
                vals[i] = v
    pos, kws = split_args(c, names, xs, dflt)
    for i in drop:
        kws.pop(names[i], None)
    o1, o2 = {}, {}
    gu = f.signature is not None
    setred = n in SET
    if setred:
        return setbody(c, f, w, xs, pos, kws)
    if gu and c["opt"] == 1 and all(len(p) <= 1 for p in sum(reg.SIG[n], [])) and len(set(sum(sum(reg.SIG[n], []), []) if 0 else [d for p in sum(reg.SIG[n], []) for d in p])) == 1:
        nd = min(x.ndim for x, p in zip(xs, reg.SIG[n][0]) if p)
        o1["axis"] = -1 - c["ax"] % nd
    elif gu and c["opt"] == 2 and all(not p for p in reg.SIG[n][1]) and len({len(p) for p in reg.SIG[n][0]}) == 1:
        o1["keepdims"] = True
    elif not gu and c["opt"] == 3:
        b = np.broadcast_shapes(*[x.shape for x in xs])
        o1["where"] = np.resize(np.array(c["wh"], dtype=bool), b)
        c = dict(c, out=True)
    elif c["opt"] == 4:
        o1["casting"] = "no"
    elif c["opt"] == 5:
        o1["dtype"] = np.dtype(reg.split(c["t"])[1][0])
    elif c["opt"] == 6 and gu:
        o1["axes"] = [tuple(range(-len(p), 0)) if len(p) != 1 or c["ax"] % 2 else -1 for p in sum(reg.SIG[n], [])]
    elif c["opt"] == 7:
        o1["signature"] = c["t"]
    o2 = dict(o1)
    if (c["out"] or reg.needs_out(n)) and not ({"axis", "keepdims"} & set(o1)):
        a, b = reg.mkout(c, 3 if not reg.needs_out(n) and "O" not in c["t"] else None), reg.mkout(c, 3 if not reg.needs_out(n) and "O" not in c["t"] else None)
        o1["out"], o2["out"] = (tuple(a), tuple(b)) if f.nout > 1 or c["ax"] % 2 else (a[0], b[0])
    want, e1 = attempt(f, *vals, **o1)
    got, e2 = attempt(w, *pos, **kws, **o2)
    what = f"wrappers.{n}(" + ", ".join([pl(x) for x in pos] + [f"{k}={pl(v)}" for k, v in kws.items()] + [f"{k}={v!r}" for k, v in o2.items() if k != "out"]) + (", out" if "out" in o2 else "") + ")"
    if e1 is not None or e2 is not None:
        if type(e1) is not type(e2):
            raise Violation(f"{what} raises {e2!r}, the function {e1!r}")
        return ""
    agree(c, what, got, want, reg.scale_of([np.asarray(v) for v in vals]))
    if "out" in o2:
        g = got if isinstance(got, tuple) else (got,)
        o = o2["out"] if isinstance(o2["out"], tuple) else (o2["out"],)
        if any(a is not b and np.ndim(b) for a, b in zip(g, o)):
            raise Violation(f"{what} does not return out")
    return n if any(x.size for x in xs) else ""


def setbody(c, f, w, xs, pos, kws):
    """axis is None, an integer or a tuple"""
    n = c["f"]
    x = xs[0]
    rest = xs[1:]
    if n not in ("all_same", "peaktopeak"):
        # of one sign: the rounding errors do not depend much on the order of summation
        y = abs(x)
        pos, kws = [y if v is x else v for v in pos], {k: y if v is x else v for k, v in kws.items()}
        x = y
    nd = x.ndim
    k = c["ax"]
    if k < 2:
        axes, axis = list(range(nd)), None
    elif k < 4:
        a = c["npos"] % nd
        axes, axis = [a], a - nd if c["sub"][0] else a
    else:
        axes = [(i + c["perm"]) % nd for i in range(nd) if c["sub"][i % 4]] or [c["perm"] % nd]
        if c["sub"][1]:
            axes = axes[::-1]
        axis = tuple(a - nd if (c["wh"] + [0] * nd)[a] else a for a in axes)
    keep = [a for a in range(nd) if a not in axes]
    y = x.transpose(keep + axes).reshape([x.shape[a] for a in keep] + [int(np.prod([x.shape[a] for a in axes]))])
    # the other operand has no core dimension: it broadcasts against what remains
    if rest:
        r = np.asarray(rest[0]).ravel()[:1].reshape(())
        r = r if r.size else np.array(True)
        rest = [r]
        pos, kws = list(pos), dict(kws)
        nm = params_of(f)[1]
        if nm in kws:
            kws[nm] = r
        elif len(pos) > 1:
            pos[1] = r
    o = {} if axis is None and c["sub"][2] else {"axis": axis}
    want, e1 = attempt(f, y.copy(), *rest)
    got, e2 = attempt(w, *pos, **kws, **o)
    what = f"wrappers.{n}({pl(x)}[{c['t']}], axis={axis})"
    if e1 is not None or e2 is not None:
        if type(e1) is not type(e2):
            raise Violation(f"{what} raises {e2!r}, the function on the flattened axes {e1!r}")
        return ""
    agree(c, what, got, want, reg.scale_of([x]))
    if axis is None and "O" not in c["t"]:
        got, e2 = attempt(w, x.tolist() if c["t"][0] in "ldO" else x, *rest)
        if e2 is not None:
            raise Violation(f"wrappers.{n}({x.tolist()}) raises {e2!r}")
    return n if x.size > 1 else ""


# ---------------------------------------------------------------- other parameters
def pcase(s):
    n = s.pick([q for q in NAMES if q not in SET])
    c = reg.gen_case(s, [n], dmax=4)
    nin = reg.FUNCS[n].nin
    c["names"] = ["".join(chr(97 + s.below(26)) for _ in range(s.rng(1, 12))) + f"_{i}" for i in range(nin)]
    c["ndef"] = s.rng(0, nin)
    c["bad"] = s.byte() % 8
    c["at"] = s.byte()
    c["name"] = s.pick([None, "f", "some_function_with_a_name_that_is_long_" + "x" * s.rng(0, 40)])
    c["npos"], c["perm"], c["sub"] = s.byte(), s.byte(), [s.byte() & 1 for _ in range(8)]
    c["dv"] = [s.pick([0, 1, 2.5, -1, True, 3, 1e300, 0.1]) for _ in range(nin)]
    return c


def pbody(c):
    n = c["f"]
    f = reg.FUNCS[n]
    t = tool()
    nin = f.nin
    nd = c["ndef"]
    P = [nm if i < nin - nd else (nm, c["dv"][i]) for i, nm in enumerate(c["names"])]
    i = c["at"] % nin
    bad = None
    if c["bad"] == 1:
        r = (RESERVED + ([f"out{k + 1}" for k in range(f.nout)] if f.nout > 1 else []))
        q = r[c["at"] % len(r)]
        P[i] = q if isinstance(P[i], str) else (q, P[i][1])
        bad = f"the parameter name {q}"
    elif c["bad"] == 2 and nin > 1:
        P = P[:-1] if c["at"] % 2 else P + [("one_more", 1)]
        bad = f"{len(P)} parameters for {nin} operands"
    elif c["bad"] == 3 and nin > 1:
        j = c["at"] % (nin - 1)
        P[j] = (c["names"][j], 1)
        P[j + 1] = c["names"][j + 1]
        bad = "a parameter without default after one with a default"
    kw = {} if c["name"] is None else {"name": c["name"]}
    try:
        s = t.uwrap(f, namespace="ufunclab", params=P, **kw)
        err = None
    except Exception as e:
        err = e
    what = f"uwrap({n}, params={P}, {kw})"
    if bad:
        if not isinstance(err, ValueError):
            raise Violation(f"{what} with {bad}: expected ValueError, {err!r}")
        return "rejected"
    if err is not None:
        raise Violation(f"{what} raises {err!r}")
    ns = {}
    try:
        exec(t.wrapper_preamble + s, ns)
    except Exception as e:
        raise Violation(f"{what} generates code that raises {e!r}:\n{s}")
    g = ns.get(c["name"] or n)
    if not inspect.isfunction(g):
        raise Violation(f"{what} does not define {c['name'] or n}:\n{s}")
    if any(len(l) > 250 for l in s.splitlines()) or not g.__doc__:
        raise Violation(f"{what}: line of more than 250 characters, or no documentation")
    xs = reg.build(c)
    vals = list(xs)
    dflt = {i: c["dv"][i] for i in range(nin - nd, nin)}
    pos, kws = split_args(c, c["names"], xs, dflt)
    for i in dflt:
        if c["sub"][i % 8]:
            vals[i] = dflt[i]
            kws.pop(c["names"][i], None)
    o1 = {"out": tuple(reg.mkout(c))} if reg.needs_out(n) else {}
    o2 = {"out": tuple(reg.mkout(c))} if reg.needs_out(n) else {}
    want, e1 = attempt(f, *vals, **o1)
    got, e2 = attempt(g, *pos, **kws, **o2)
    what += f" called with {[pl(x) for x in pos]}, { {k: pl(v) for k, v in kws.items()} }"
    if e1 is not None or e2 is not None:
        if type(e1) is not type(e2):
            raise Violation(f"{what} raises {e2!r}, the function {e1!r}")
        return ""
    agree(c, what, got, want, reg.scale_of([np.asarray(v) for v in vals]))
    return "wrapped"


def facets(tier):
    return [Facet("script", [src((lambda n: lambda s: wcase(s, n))(n), 700) for n in NAMES], wbody, 100 * len(NAMES), 4000 * len(NAMES), rule="not empty; labelled by function"),
            Facet("params", src(pcase, 700), pbody, 3000, 100000, rule="a wrapper is generated and its call succeeds, or the parameters are rejected")]
