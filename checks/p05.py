"""Object arrays: Python's operators, their exceptions, and reference counts."""
import operator
import sys
from fractions import Fraction
import numpy as np
import ufunclab as u
from core import Facet, Violation
from gen import src
from p01 import view, gen_lay

TECHNIQUE = "fault injection into generated element objects (every operator call raises in turn), reference-count invariants, and a Python model"
NOTE = ("15 functions on object arrays of 0 to 9 instrumented elements (and of ints, Fractions, floats, strings), in 1 to 3 core problems, any strides, with and without out; "
        "for each case the run without fault and a run for every single operator call that raises (up to 60), and long arrays with a fault at a few of the calls. The number and order of the operator calls is free.")

OPS = [operator.lt, operator.le, operator.eq, operator.ne, operator.gt, operator.ge]
RED = ["argmin", "argmax", "minmax", "argminmax", "min_argmin", "max_argmax", "peaktopeak"]
NAMES = ["first", "argfirst"] + RED + ["searchsortedl", "searchsortedr", "ordered", "all_same", "cross2", "cross3"]


class Boom(Exception):
    pass


class S:
    n = 0           # operator calls so far
    k = 0           # the one that raises
    boom = None
    lazy = False    # comparisons return objects whose truth value is computed by Python code
    live = set()    # the instances of E of the current run


def tick():
    S.n += 1
    if S.n == S.k:
        S.boom = Boom(S.n)
        raise S.boom


class Truth:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __bool__(self):
        tick()
        return self.v


def res(v):
    return Truth(v) if S.lazy else v


class E:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v
        S.live.add(id(self))

    def __del__(self):
        S.live.discard(id(self))

    def __lt__(self, o):
        tick()
        return res(self.v < o.v)

    def __le__(self, o):
        tick()
        return res(self.v <= o.v)

    def __eq__(self, o):
        tick()
        return res(self.v == o.v)

    def __ne__(self, o):
        tick()
        return res(self.v != o.v)

    def __gt__(self, o):
        tick()
        return res(self.v > o.v)

    def __ge__(self, o):
        tick()
        return res(self.v >= o.v)

    def __sub__(self, o):
        tick()
        return E(self.v - o.v)

    def __mul__(self, o):
        tick()
        return E(self.v * o.v)

    __hash__ = None

    def __repr__(self):
        return f"E({self.v})"


# ------------------------------------------------------------------ model, on plain values
def model(f, x, op, t, w):
    """-> list of expected outputs; elements are denoted by ('x', i), ('w',), or ('v', value)"""
    n = len(x)
    if f in RED:
        lo = min(range(n), key=lambda i: x[i])
        hi = max(range(n), key=lambda i: x[i])
        return {"argmin": [lo], "argmax": [hi], "argminmax": [[lo, hi]], "minmax": [[("v", x[lo]), ("v", x[hi])]],
                "min_argmin": [("v", x[lo]), lo], "max_argmax": [("v", x[hi]), hi], "peaktopeak": [("v", x[hi] - x[lo] if f == "peaktopeak" else 0)]}[f]
    if f == "first":
        for i in range(n):
            if op < 6 and OPS[op](x[i], t):
                return [("x", i)]
        return [("w",)]
    if f == "argfirst":
        for i in range(n):
            if op < 6 and OPS[op](x[i], t):
                return [i]
        return [-1]
    if f == "searchsortedl":
        return [sum(1 for v in x if v < t)]
    if f == "searchsortedr":
        return [sum(1 for v in x if v <= t)]
    if f == "ordered":
        return [all(OPS[op](x[i], x[i + 1]) for i in range(n - 1))]
    if f == "all_same":
        return [all(v == x[0] for v in x)]
    if f == "cross2":
        return [("v", x[0] * x[3] - x[1] * x[2])]
    a, b = x[:3], x[3:]
    return [[("v", a[1] * b[2] - a[2] * b[1]), ("v", a[2] * b[0] - a[0] * b[2]), ("v", a[0] * b[1] - a[1] * b[0])]]


def arr(items, L=None, shape=None):
    shape = shape or (len(items),)
    if L is None:
        a = np.empty(shape, dtype=object)
    else:
        a, _ = view(shape, "O", L)
    for i, idx in zip(items, np.ndindex(*shape)):
        a[idx] = i
    return a


def args_of(c, rows, ts, ws):
    """rows: list of lists of objects; one core problem each"""
    f, n, B = c["f"], c["n"], len(rows)
    flat = [e for r in rows for e in r]
    if f in ("cross2", "cross3"):
        h = n // 2
        return [arr([e for r in rows for e in r[:h]], c["L"][0], (B, h)), arr([e for r in rows for e in r[h:]], c["L"][1], (B, h))]
    x = arr(flat, c["L"][0], (B, n))
    if f == "first":
        return [x, c["op"], arr(ts, c["L"][1]), arr(ws)]
    if f == "argfirst":
        return [x, c["op"], arr(ts, c["L"][1])]
    if f in ("searchsortedl", "searchsortedr"):
        return [x, arr(ts, c["L"][1])]
    if f == "ordered":
        return [x, c["op"]]
    return [x]


OUTS = {"minmax": [("O", (2,))], "argminmax": [("l", (2,))], "min_argmin": [("O", ()), ("l", ())], "max_argmax": [("O", ()), ("l", ())],
        "peaktopeak": [("O", ())], "first": [("O", ())], "cross2": [("O", ())], "cross3": [("O", (3,))], "ordered": [("?", ())], "all_same": [("?", ())]}


def outs_of(c, B, mkel):
    r = []
    for t, core in OUTS.get(c["f"], [("l", ())]):
        sh = (B,) + core
        if t == "O":
            r.append(arr([mkel() for _ in range(int(np.prod(sh)))], c["L"][2] if len(sh) == 1 else None, sh))
        else:
            r.append(np.zeros(sh, dtype=t))
    return tuple(r)


def run(f, args, out):
    """-> (outputs or None, exception)"""
    try:
        r = getattr(u, f)(*args, out=out) if out is not None else getattr(u, f)(*args)
        return (list(r) if isinstance(r, tuple) else [r]), None
    except BaseException as e:
        e.__traceback__ = None
        return None, e


def compare(c, got, rows, vals, ts, tv, ws, what):
    """got: list of outputs, each (B,)+core"""
    for b, (row, xv) in enumerate(zip(rows, vals)):
        want = model(c["f"], xv, c["op"], tv[b], None)
        for k, w in enumerate(want):
            g = got[k][b]
            for gi, wi in zip(g if isinstance(w, list) else [g], w if isinstance(w, list) else [w]):
                if isinstance(wi, tuple):
                    if wi[0] == "x":
                        ok = gi is row[wi[1]]
                    elif wi[0] == "w":
                        ok = gi is ws[b]
                    else:
                        ok = type(gi) is E and gi.v == wi[1]
                        ok = ok and (c["f"] not in ("minmax", "min_argmin", "max_argmax") or any(gi is e for e in row))
                    if not ok:
                        raise Violation(f"{what}: core problem {b}, output {k} is {gi!r}, expected {wi}")
                elif int(gi) != int(wi):
                    raise Violation(f"{what}: core problem {b}, output {k} is {g}, expected {w}")


def fcase(s, f):
    c = {"f": f, "n": {"cross2": 4, "cross3": 6}.get(f) or s.rng(1 if f in RED else 0, 8), "op": s.byte() % 6, "lazy": s.byte() % 4 == 3,
         "out": s.byte() % 3, "L": [gen_lay(s, 2), gen_lay(s, 2), gen_lay(s, 1)]}
    if f in ("first", "argfirst") and s.chance(1, 16):
        c["op"] = 6 + s.byte() % 100
    B = s.rng(1, 3)
    k = s.pick([1, 3, 8])
    c["x"] = [[s.near0(k) for _ in range(c["n"])] for _ in range(B)]
    if f.startswith("searchsorted"):
        c["x"] = [sorted(r) for r in c["x"]]
    c["t"] = [s.near0(k) for _ in range(B)]
    c["share"] = s.byte() % 4 == 3
    return c


def one(c, k, what):
    """One run with the k-th operator call raising; -> number of operator calls"""
    S.live = set()
    S.n = S.k = 0
    S.lazy = c["lazy"]
    f = c["f"]
    pool = {}

    def mkel(v):
        if c["share"]:
            if v not in pool:
                pool[v] = E(v)
            return pool[v]
        return E(v)
    rows = [[mkel(v) for v in r] for r in c["x"]]
    ts = [mkel(v) for v in c["t"]]
    ws = [E(99) for _ in c["t"]]
    args = args_of(c, rows, ts, ws)
    olds = []

    def old():
        olds.append(E(-1))
        return olds[-1]
    out = outs_of(c, len(rows), old) if c["out"] == 1 else None
    els = [e for r in rows for e in r] + ts + ws
    before = [sys.getrefcount(e) for e in els]
    S.n, S.k, S.boom = 0, k, None
    res, err = run(f, args, out)
    ncalls = S.n
    S.k = 0
    if S.boom is not None:
        if err is None:
            raise Violation(f"{what}: operator call {k} raised, but no exception reached the caller (result {res})")
        if err is not S.boom:
            raise Violation(f"{what}: operator call {k} raised Boom, but the caller got {type(err).__name__}: {err}")
        S.boom.__traceback__ = None
    elif err is not None:
        raise Violation(f"{what}: raised {type(err).__name__}: {err}")
    else:
        compare(c, res, rows, c["x"], ts, c["t"], ws, what)
    S.boom = err = None
    if out is not None:
        for o in out:
            if o.dtype == object:
                o[...] = None
    res = out = None
    after = [sys.getrefcount(e) for e in els]
    for i, (a, b) in enumerate(zip(after, before)):
        if a != b:
            raise Violation(f"{what}: reference count of element {els[i]!r} was {b}, is {a} after the call" + (f" (operator call {k} raised)" if k else ""))
    extra = sum(sys.getrefcount(o) - 3 for o in olds)
    if extra:
        raise Violation(f"{what}: the previous content of out has {extra} references too many after the call" + (f" (operator call {k} raised)" if k else ""))
    del rows, ts, ws, args, els, olds
    pool.clear()
    if S.live:
        raise Violation(f"{what}: {len(S.live)} objects created in the call were not released" + (f" (operator call {k} raised)" if k else ""))
    return ncalls


def fbody(c):
    what = f"{c['f']} of objects with values {c['x']}" + (f", op {c['op']}" if c["f"] in ("first", "argfirst", "ordered") else "") + f", {c['t']}" + \
        (" with out" if c["out"] == 1 else "")
    n = one(c, 0, what)
    for k in range(1, min(n, 60) + 1):
        one(c, k, what)
    return c["f"] if n else ""


def lcase(s, f):
    """many elements, or many core problems, made of the values of a small case"""
    c = fcase(s, f)
    c["N"] = s.pick([40, 64, 127, 128, 129, 255, 256, 257, 300, 512, 513])
    c["wide"] = f in ("cross2", "cross3") or s.byte() % 3 == 2
    c["seed"] = s.byte()
    c["at"] = [s.rng(0, 1000) for _ in range(4)]
    if not c["n"]:
        c["n"], c["x"] = 1, [[1] for _ in c["x"]]
    return c


def lbody(c):
    r = np.random.default_rng(c["seed"])
    if c["wide"]:
        ix = r.integers(0, len(c["x"]), c["N"])
        d = dict(c, x=[c["x"][i] for i in ix], t=[c["t"][i] for i in ix])
    else:
        d = dict(c, n=c["N"], x=[[row[i] for i in r.integers(0, c["n"], c["N"])] if c["seed"] % 3 else row[:1] * (c["N"] - c["n"]) + row for row in c["x"]])
        if c["f"].startswith("searchsorted"):
            d["x"] = [sorted(row) for row in d["x"]]
        elif c["seed"] % 4 == 3:
            d["x"] = [list(range(c["N"])) for _ in c["x"]]
    what = f"{c['f']} of {c['N']} {'core problems' if c['wide'] else 'objects'}, case {c}"
    n = one(d, 0, what)
    for a in c["at"]:
        if n:
            one(d, 1 + a * (n - 1) // 1000, what)
    return c["f"] if n else ""


# ------------------------------------------------------------------ ordinary Python values
def py(s, kind):
    if kind == 0:
        return s.near0(1 << 90)
    if kind == 1:
        return [s.near0(9), s.rng(1, 7)]
    if kind == 2:
        return s.near0(40) / 8
    return "".join(s.pick(["a", "b", "B", "", "é"]) for _ in range(s.rng(0, 3)))


def real(v):
    return Fraction(v[0], v[1]) if isinstance(v, list) else v


def pcase(s, f):
    c = {"f": f, "n": {"cross2": 4, "cross3": 6}.get(f) or s.rng(1 if f in RED else 0, 9), "op": s.byte() % 6,
         "L": [gen_lay(s, 2), gen_lay(s, 2), gen_lay(s, 1)]}
    arith = f in ("cross2", "cross3", "peaktopeak")
    kind = s.byte() % 5
    B = s.rng(1, 3)

    def el():
        k = s.byte() % 3 if kind == 4 else kind
        if arith and k == 3:
            k = 1
        return py(s, k)
    c["x"] = [[el() for _ in range(c["n"])] for _ in range(B)]
    if f.startswith("searchsorted"):
        c["x"] = [sorted(r, key=real) for r in c["x"]]
    c["t"] = [s.pick(c["x"][b]) if c["n"] and s.byte() & 1 else el() for b in range(B)]
    return c


def pbody(c):
    rows = [[real(v) for v in r] for r in c["x"]]
    ts = [real(v) for v in c["t"]]
    ws = [object() for _ in ts]
    what = f"{c['f']} of {rows}" + (f", op {c['op']}" if c["f"] in ("first", "argfirst", "ordered") else "") + f", {ts}"
    res, err = run(c["f"], args_of(c, rows, ts, ws), None)
    if err is not None:
        raise Violation(f"{what}: raised {type(err).__name__}: {err}")
    for b, row in enumerate(rows):
        want = model(c["f"], row, c["op"], ts[b], None)
        for k, w in enumerate(want):
            g = res[k][b]
            for gi, wi in zip(g if isinstance(w, list) else [g], w if isinstance(w, list) else [w]):
                if isinstance(wi, tuple):
                    e = row[wi[1]] if wi[0] == "x" else ws[b] if wi[0] == "w" else wi[1]
                    if not (gi is e if wi[0] != "v" else type(gi) is type(e) and gi == e or gi == e and c["f"] not in ("peaktopeak", "cross2", "cross3")):
                        raise Violation(f"{what}: core problem {b}, output {k} is {gi!r}, expected {e!r}")
                elif int(gi) != int(wi):
                    raise Violation(f"{what}: core problem {b}, output {k} is {g}, expected {w}")
    return c["f"] if c["n"] > 1 else ""


# ------------------------------------------------------------------ incomparable elements
def mcase(s, f):
    c = pcase(s, f)
    r = c["x"][s.below(len(c["x"]))]
    if r:
        r[s.below(len(r))] = "z" if not isinstance(r[0], str) else 5
    c["L"] = [gen_lay(s, 2), gen_lay(s, 2), gen_lay(s, 1)]
    return c


def mbody(c):
    rows = [[real(v) for v in r] for r in c["x"]]
    ts = [real(v) for v in c["t"]]
    ws = [object() for _ in ts]
    what = f"{c['f']} of {rows}, {ts}"
    res, err = run(c["f"], args_of(c, rows, ts, ws), None)
    if err is not None and type(err) is not TypeError:
        raise Violation(f"{what}: raised {type(err).__name__}: {err}; only TypeError can come from the elements")
    must = False        # does every evaluation of the function need an operator that raises?
    if c["f"] in RED:
        for r in rows:
            must |= len(r) > 1 and len({isinstance(v, str) for v in r}) > 1
    if c["f"] == "ordered" and c["op"] not in (2, 3):
        for r in rows:
            must |= len(r) > 1 and isinstance(r[0], str) != isinstance(r[1], str)
    if must and err is None:
        raise Violation(f"{what}: no exception, result {res}")
    return "TypeError" if err is not None else ""


def facets(tier):
    N = len(NAMES)
    return [Facet("faults", [src((lambda f: lambda s: fcase(s, f))(f), 200) for f in NAMES], fbody, 400 * N, 20000 * N,
                  rule="an operator of an element is called; labelled by function"),
            Facet("long faults", [src((lambda f: lambda s: lcase(s, f))(f), 200) for f in NAMES], lbody, 30 * N, 2000 * N,
                  rule="40 to 513 elements or core problems and an operator of an element is called; labelled by function"),
            Facet("python", [src((lambda f: lambda s: pcase(s, f))(f), 700) for f in NAMES], pbody, 800 * N, 40000 * N, rule="more than one element; by function"),
            Facet("incomparable", [src((lambda f: lambda s: mcase(s, f))(f), 700) for f in NAMES if f not in ("cross2", "cross3")], mbody, 300 * N, 15000 * N,
                  rule="an element's operator raised TypeError")]
