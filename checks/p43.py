"""NumPy's ways of driving a loop: ufunc methods, forced signatures, casting and buffering."""
import numpy as np
from core import Facet, Violation
import reg
from arr import mk, same, pl, lay, poison
from gen import src

BUDGET = (200, 600)
TECHNIQUE = "reference model: reduce, accumulate, reduceat, outer and at as folds of single calls; metamorphic: a forced signature, casts and small buffers against the plain call"
NOTE = ("Methods: the binary element-by-element functions in every loop, up to three dimensions, any axis, keepdims, initial, where and out, operands in nine layouts; `at` also for "
        "the functions of one argument, with repeated and negative indices. Signatures: every function and loop, operands in other types that hold the same values, buffers of 16 "
        "elements and arrays of up to 300 elements.")
ELEM = [n for n in reg.NAMES if reg.FUNCS[n].signature is None and reg.FUNCS[n].nout == 1]
BIN = [n for n in ELEM if reg.FUNCS[n].nin == 2]
AT = [n for n in ELEM if reg.FUNCS[n].nin <= 2]
HOMO = {n: [t for t in reg.LOOPS[n] if len(set(t) - set("->")) == 1 and t[0] in "fdg"] for n in ELEM}
BIN = [n for n in BIN if HOMO[n]]
AT = [n for n in AT if HOMO[n]]


def value(s, t):
    k = s.byte() % 8
    return s.near0(4) / 2 if k < 5 else s.flt(t, mag=1000.0) if k < 7 else s.flt(t, nan=True, inf=True)


# ---------------------------------------------------------------- methods
def mcase(s):
    op = s.pick(["reduce", "accumulate", "outer", "at", "reduceat"])
    n = s.pick(AT if op == "at" else BIN)
    t = s.pick(HOMO[n])
    nd = s.rng(1, 3)
    sh = [s.rng(1, 4) for _ in range(nd)]
    if s.chance(1, 10):
        sh[s.below(nd)] = 0
    if s.chance(1, 8):
        sh[s.below(nd)] = s.rng(5, 30)
    c = {"op": op, "f": n, "t": t, "s": sh, "axis": s.below(nd), "neg": s.byte() & 1, "lay": [s.byte() % 9 for _ in range(3)], "kw": s.byte() % 32,
         "v": [value(s, t[0]) for _ in range(int(np.prod(sh)))], "init": value(s, t[0])}
    if op == "outer":
        c["s2"] = [s.rng(1, 3) for _ in range(s.rng(0, 2))]
        c["w"] = [value(s, t[0]) for _ in range(int(np.prod(c["s2"])))]
    if op == "at":
        n1 = s.rng(0, 12) if sh[0] else 0
        c["ix"] = [s.rng(-sh[0], sh[0] - 1) for _ in range(n1)]
        c["w"] = [value(s, t[0]) for _ in range(n1)]
    if op == "reduceat":
        m = sh[c["axis"]]
        c["ix"] = [s.below(m) for _ in range(s.rng(1, 5))] if m else []
    if op == "reduce":
        c["wh"] = [s.byte() & 1 for _ in range(int(np.prod(sh)))]
    return c


def fold(f, vs, t):
    """left fold of scalars"""
    a = vs[0]
    for b in vs[1:]:
        a = one(f, t, a, b)
    return a


def one(f, t, *args):
    return f(*[np.array([x], dtype=t[0]) for x in args])[0]


def mbody(c):
    f, t, op = reg.FUNCS[c["f"]], c["t"], c["op"]
    dt = np.dtype(t[0])
    X = mk(c["v"], t[0], (len(c["v"]),)).reshape(c["s"]).astype(dt)
    x = lay(X, c["lay"][0])
    ax = c["axis"] - X.ndim if c["neg"] else c["axis"]
    keep, useout, usei, usew, half = [bool(c["kw"] >> i & 1) for i in range(5)]
    what = f"{c['f']}.{op}({pl(X)}[{t}]"
    kw = {}
    with np.errstate(all="ignore"):
        if op == "at":
            y = lay(X, 2 if c["lay"][0] == 8 else c["lay"][0])
            w = mk(c["w"], t[0], (len(c["w"]),)).astype(dt)
            want = X.copy()
            for k, i in enumerate(c["ix"]):
                args = (want[i],) if f.nin == 1 else (want[i], np.broadcast_to(w[k], want[i].shape))
                want[i] = f(*[np.array(a, dtype=dt) for a in args])
            ix = np.array(c["ix"], dtype=np.intp)
            if f.nin == 1:
                f.at(y, ix)
            else:
                f.at(y, ix, lay(w.reshape(w.shape + (1,) * (X.ndim - 1)), c["lay"][1]))
            if not same(np.asarray(y).astype(dt), want):
                raise Violation(f"{what}, {c['ix']}, {pl(w)}) gives {pl(y)}, one call after another {pl(want)}")
            return op if len(c["ix"]) > 1 and X.size else ""
        if op == "outer":
            Y = mk(c["w"], t[0], (len(c["w"]),)).reshape(c["s2"]).astype(dt)
            y = lay(Y, c["lay"][1])
            want = np.zeros(X.shape + Y.shape, dtype=dt)
            for i in np.ndindex(*X.shape):
                for j in np.ndindex(*Y.shape):
                    want[i + j] = one(f, t, X[i], Y[j])
            if useout:
                kw["out"] = lay(poison(want.shape, dt), 4)
            got = f.outer(x, y, **kw)
        elif op == "accumulate":
            want = np.zeros(X.shape, dtype=dt)
            M, W = np.moveaxis(X, ax, -1), np.moveaxis(want, ax, -1)
            for i in np.ndindex(*M.shape[:-1]):
                for k in range(M.shape[-1]):
                    W[i + (k,)] = M[i + (k,)] if k == 0 else one(f, t, W[i + (k - 1,)], M[i + (k,)])
            if useout:
                kw["out"] = lay(poison(want.shape, dt), c["lay"][1] % 5)
            got = f.accumulate(x, axis=ax, **kw)
        elif op == "reduceat":
            if not X.shape[ax]:
                return ""
            ix = c["ix"]
            M = np.moveaxis(X, ax, -1)
            W = np.zeros(M.shape[:-1] + (len(ix),), dtype=dt)
            for i in np.ndindex(*M.shape[:-1]):
                for k, a in enumerate(ix):
                    b = ix[k + 1] if k + 1 < len(ix) else M.shape[-1]
                    W[i + (k,)] = fold(f, M[i][a:max(b, a + 1)], t)
            want = np.moveaxis(W, -1, ax)
            got = f.reduceat(x, ix, axis=ax, **kw)
        else:
            M = np.moveaxis(X, ax, -1)
            wh = np.array(c["wh"], dtype=bool).reshape(X.shape) if usew else np.ones(X.shape, dtype=bool)
            Wm = np.moveaxis(wh, ax, -1)
            init = mk([c["init"]], t[0], (1,)).astype(dt)
            ini = usei or usew
            if not X.shape[ax] and not ini:
                try:
                    f.reduce(x, axis=ax)
                except ValueError:
                    return ""
                if X.size or np.prod([m for k, m in enumerate(X.shape) if k != c["axis"]]):
                    raise Violation(f"{what}, axis={ax}) of an empty axis did not raise ValueError")
                return ""
            W = np.zeros(M.shape[:-1], dtype=dt)
            for i in np.ndindex(*M.shape[:-1]):
                vs = ([init[0]] if ini else []) + [v for v, b in zip(M[i], Wm[i]) if b]
                W[i] = fold(f, vs, t)
            want = np.expand_dims(W, ax) if keep else W
            if keep:
                kw["keepdims"] = True
            if ini:
                kw["initial"] = init[0]
            if usew:
                kw["where"] = wh
            if useout:
                kw["out"] = lay(poison(want.shape, dt), c["lay"][1] % 5)
            got = f.reduce(x, axis=ax, **kw)
    if "out" in kw and got is not kw["out"]:
        raise Violation(f"{what}, out=...) does not return out")
    got = np.asarray(got)
    if got.dtype != dt or not same(got, want):
        raise Violation(f"{what}, {c.get('ix', c.get('w', ''))}, axis={ax}, {sorted(kw)}) = {pl(got)}[{got.dtype}], the fold of single calls is {pl(want)}")
    return op if X.size > 1 else ""


# ---------------------------------------------------------------- signatures
NAMES = [n for n in reg.NAMES if any("O" not in t for t in reg.LOOPS[n])]
WIDER = {"f": "fedgbhBl", "d": "dfegblh", "g": "gdfl", "e": "efd", "F": "FDGfb", "D": "DFGdl", "G": "GDg"}
WIDER.update({k: k + "dlhbfiqg" for k in "bhilq"})
WIDER.update({k: k + "dlfLHBg" for k in "BHILQ"})
WIDER["?"] = "?Bbld"


def scase(s, n):
    for _ in range(8):
        c = reg.gen_case(s, [n], style=s.pick([0, 1]))
        if "O" not in c["t"]:
            break
    c["dts"] = [s.byte() for _ in c["ops"]]
    c["form"] = s.byte() % 3
    c["buf"] = s.byte() % 2
    c["tile"] = s.pick([1, 1, 1, 40, 17, 300]) if reg.FUNCS[n].signature is None else 1
    c["lay"] = [s.byte() % 9 for _ in c["ops"]]
    return c


def holds(y, x):
    """the same values, signs of zero included"""
    y = y.astype(x.dtype)
    return all(same(a, b, True) for a, b in ([(y.real, x.real), (y.imag, x.imag)] if x.dtype.kind == "c" else [(y, x)]))


def sbody(c):
    t = c["t"]
    if "O" in t:
        return ""
    f = reg.FUNCS[c["f"]]
    ti, to = reg.split(t)
    xs = reg.build(c)
    if c["tile"] > 1:
        xs = [np.repeat(x, c["tile"], axis=-1) if x.ndim and x.shape[-1] > 1 else x for x in xs]
        if any(x.size > 3000 for x in xs):
            return ""
    ys, cast = [], False
    for x, ch, k in zip(xs, ti, c["dts"]):
        q = WIDER[ch][k % len(WIDER[ch])]
        with np.errstate(all="ignore"):
            y = x.astype(q)
            if not holds(y, x):
                y = x
        cast |= y.dtype != x.dtype
        ys.append(y)
    sig = t if c["form"] == 0 else tuple(ti + to) if c["form"] == 1 else tuple(np.dtype(q) for q in ti + to)
    kw = {"signature": sig, "casting": "unsafe"}
    need = reg.needs_out(c["f"])
    try:
        base, err = reg.run(c, xs), None
    except Exception as e:
        base, err = None, type(e)
    if need:
        kw["out"] = tuple(reg.mkout(c))
    zs = [lay(y, k) if c["f"] not in reg.CONTIG else y for y, k in zip(ys, c["lay"])]
    old = np.getbufsize()
    try:
        if c["buf"]:
            np.setbufsize(16)
        with np.errstate(all="ignore"):
            got = f(*zs, **kw)
        got, e2 = [got] if f.nout == 1 else list(got), None
    except Exception as e:
        got, e2 = None, type(e)
    finally:
        np.setbufsize(old)
    what = f"{reg.describe(c, xs)} with operands of types {[y.dtype.char for y in ys]}, signature={t}" + (", buffers of 16" if c["buf"] else "")
    if err or e2:
        if err is not e2:
            raise Violation(f"{what} raises {e2 and e2.__name__}, the plain call {err and err.__name__}")
        return ""
    sc = reg.scale_of(xs)
    for a, b, ch in zip(got, base, to):
        a, b = reg.arr_of(a, ch), reg.arr_of(b, ch)
        if not reg.agree(a, b, sc):
            raise Violation(f"{what} is {pl(a)}[{a.dtype}], the plain call {pl(b)}[{b.dtype}]")
    return c["f"] if cast and any(x.size for x in xs) else ""


def facets(tier):
    return [Facet("methods", src(mcase, 900), mbody, 4000, 200000, rule="at least two elements; labelled by method"),
            Facet("signature", [src((lambda n: lambda s: scase(s, n))(n), 700) for n in NAMES], sbody, 60 * len(NAMES), 4000 * len(NAMES),
                  rule="not empty, and at least one operand is cast; labelled by function")]
