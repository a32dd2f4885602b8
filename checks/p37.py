"""gendot against prodfunc and sumfunc themselves, for every compatible pair."""
import numpy as np
import ufunclab as u
import longf
from core import Facet, Violation, call
from arr import styled, same, pl, INTS, mk
from gen import src

TECHNIQUE = "differential: NumPy's own evaluation of prodfunc and an explicit left fold with sumfunc; an enumeration of the compatible type pairs"
NOTE = ("prodfunc: every element-wise ufunc of NumPy and ufunclab with two inputs; sumfunc: the same, and every (n)->() gufunc of ufunclab; "
        "all loops over bool, integers, float16 to longdouble and complex; lengths 0 to 40, all call styles and layouts. Exact, except where the "
        "product or sum is a transcendental function or a complex product of NumPy, whose last bits depend on the layout: then within the spread that the last bits cause. datetime, object and long long loops are not called.")
OKT = "?bBhHiIlLefdgFDG"


def pool():
    ew, gu = [], []
    for mod in (np, u):
        for n in sorted(set(dir(mod))):
            f = getattr(mod, n)
            if not isinstance(f, np.ufunc):
                continue
            if f.signature is None and f.nin == 2 and f.nout == 1 and f not in ew:
                ew.append(f)
            if f.signature == "(n)->()" and f not in gu:
                gu.append(f)
    return ew, gu


PROD, GU = pool()
SUM = PROD + GU
_cache = {}
# results that depend in the last bits on how many elements are computed at once
TRANS = {"arctan2", "power", "pow", "float_power", "logaddexp", "logaddexp2", "hypot"}
MULDIV = {"multiply", "divide", "true_divide"}     # complex: fused multiply-add or not
CONT = TRANS | {"add", "subtract", "multiply", "maximum", "minimum", "fmax", "fmin", "kbnsum", "rms", "peaktopeak"}


def ref_types(p, s):
    """[(types string, prod type, sum type)]"""
    r = []
    for pt in p.types:
        pi, po = pt.split("->")
        if "O" in pt:
            continue
        for st in s.types:
            si, so = st.split("->")
            if si == po * s.nin and (s.nin == 1 or so == po):
                r.append((f"{pi}->{so}", pt, st))
    return r


def made(p, s):
    k = (p, s)
    if k not in _cache:
        r = ref_types(p, s)
        try:
            f = call(u.gendot, p, s)
        except Violation:
            if r:
                raise
            f = None            # nothing to compose: refusing is fine
        if f is not None:
            if not isinstance(f, np.ufunc) or f.nin != 2 or f.nout != 1 or (f.signature or "").replace(" ", "") != "(n),(n)->()":
                raise Violation(f"gendot({p.__name__}, {s.__name__}) is not a gufunc with signature (n),(n)->()")
            got, want = set(f.types), {t[0] for t in r}
            if got != want:
                raise Violation(f"gendot({p.__name__}, {s.__name__}).types = {sorted(got)}; the compatible types are {sorted(want)}")
        seen, use = set(), []
        for t, pt, st in r:
            i = t[:2]
            if i not in seen and all(c in OKT for c in (t + pt + st).replace("->", "")):
                use.append((t, pt, st))
            seen.add(i)
        _cache[k] = f, use
    return _cache[k]


def sampler(s, t):
    if t in "FDG":
        e = sampler(s, "f" if t == "F" else "d")
        return lambda: [e(), e()]
    if t == "?":
        return lambda: s.byte() & 1
    m = s.byte() % 4
    if m < 2:
        return lambda: abs(s.near0(6)) if t in INTS and np.dtype(t).kind == "u" else s.near0(6) / (1 if t in INTS or m else 4)
    if t in INTS:
        return lambda: s.integer(t)
    return lambda: s.flt("d" if t == "g" else t, nan=m == 3, inf=m == 3)


def pick(s, pi, si):
    """a composable pair near the given indices, and the types of one of its loops"""
    for k in range(len(SUM)):
        p, q = PROD[pi % len(PROD)], SUM[(si + k) % len(SUM)]
        f, use = made(p, q)
        if f is not None and use:
            return p, q, use
    return None


def case(s, pair=None):
    pi, si = pair or (s.below(len(PROD)), s.below(len(SUM)))
    r = pick(s, pi, si)
    if r is None:
        return {"p": PROD[pi].__name__, "s": None}
    p, q, use = r
    t, pt, st = s.pick(use)
    n = s.rng(0, 7)
    if s.chance(1, 10):
        n = s.rng(8, 40)
    B = s.rng(1, 3)
    ex, ey = sampler(s, t[0]), sampler(s, t[1])
    return {"p": p.__name__, "s": q.__name__, "t": [t, pt, st], "n": n, "B": B, "sty": s.style(),
            "x": [[ex() for _ in range(n)] for _ in range(B)], "y": [[ey() for _ in range(n)] for _ in range(B)]}


BYNAME = {f.__name__: f for f in reversed(PROD)}
SBYNAME = {f.__name__: f for f in reversed(SUM)}


def arr(c, k, t):
    d = c[k]
    if t in INTS:
        ii = np.iinfo(t)
        d = [[min(max(int(v), int(ii.min)), int(ii.max)) for v in r] for r in d]
    return mk(d, t, (c["B"], c["n"]))


def body(c):
    if c["s"] is None:
        return ""
    p, q = BYNAME[c["p"]], SBYNAME[c["s"]]
    f, use = made(p, q)
    t, pt, st = c["t"]
    if f is None:
        return ""
    with np.errstate(all="ignore"):
        return run(c, p, q, f, t, pt, st)


def reduce(q, st, a, dt):
    """reduces the rows of a"""
    B, n = a.shape
    if q.nin == 1:
        return np.stack([np.asarray(q(a[b], signature=st)) for b in range(B)])
    w = []
    for b in range(B):
        acc = a[b, :1]
        for k in range(1, n):
            acc = q(acc, a[b, k:k + 1], signature=st)
        w.append(acc[0])
    return np.array(w, dtype=dt)


def spread(p, q, pt, st, t, a, w):
    """How much the last bits of the products matter; None when they decide the result."""
    if q.__name__ not in CONT or t[-1] not in "efdgFDG" or not np.isfinite(a).all() or not np.isfinite(w).all():
        return None
    eps = np.finfo(pt[-1]).eps
    w1, w2 = (reduce(q, st, (a * a.dtype.type(1 + k * eps)).astype(a.dtype), t[-1]) for k in (-4, 4))
    if not (np.isfinite(w1).all() and np.isfinite(w2).all()):
        return None
    tol = 8 * (abs(w1 - w) + abs(w2 - w)) + 64 * eps * a.shape[1] * (abs(w) + abs(a).max(axis=1))
    if (tol > 1e-2 * abs(w) + (0.01 if pt[-1] in "ef" else 1e-9)).any() and pt[-1] != "e":
        return None
    return tol


def run(c, p, q, f, t, pt, st):
    B, n = c["B"], c["n"]
    tol = None
    x, y = arr(c, "x", t[0]), arr(c, "y", t[1])
    what = f"gendot({p.__name__}, {q.__name__})[{t}]({pl(x)}, {pl(y)})"
    try:
        if n:
            a = p(x, y, signature=pt)
            xs, ys = np.empty((B, 2 * n), t[0])[:, ::2], np.empty((B, 3 * n), t[1])[:, ::3]
            xs[...], ys[...] = x, y
            if not same(a, p(xs, ys, signature=pt)) or a.tobytes() != np.stack([p(x[b], y[b], signature=pt) for b in range(B)]).tobytes() and not same(
                    a, np.stack([p(x[b], y[b], signature=pt) for b in range(B)])):
                return ""
            w = reduce(q, st, a, t[-1])
            if pt[-1] in "efdgFDG" and (p.__name__ in TRANS or q.__name__ in TRANS or pt[-1] in "FDG" and {p.__name__, q.__name__} & MULDIV):
                tol = spread(p, q, pt, st, t, a, w)
                if tol is None:
                    call(f, x, y)
                    return ""
        elif q.identity is None:
            w = None
        else:
            w = np.broadcast_to(np.array(q.identity).astype(t[-1]), (B,))
    except Exception as e:
        if n == 0:
            raise
        w = e
    if isinstance(w, (Exception, type(None))):
        try:
            g = f(x, y)
        except Exception as e:
            if w is None and not isinstance(e, ValueError):
                raise Violation(f"{what} raised {type(e).__name__} instead of ValueError")
            return "both raise"
        raise Violation(f"{what} = {pl(g)}, but {'the reduction has no identity' if w is None else repr(w)}")
    g = styled(f, [x, y], c["sty"], outdt=t[-1])[0]
    if g.dtype != np.dtype(t[-1]):
        raise Violation(f"{what}: dtype {g.dtype}, expected {t[-1]}")
    if tol is not None:
        if not (abs(g - w) <= tol).all():
            raise Violation(f"{what} = {pl(g)}, expected {pl(w)} (to within {pl(tol)})")
    elif not same(g, w):
        raise Violation(f"{what} = {pl(g)}, expected {pl(w)}")
    return "empty" if n == 0 else "one" if n == 1 else "many"


def tbody(c):
    p = PROD[c["p"]]
    m = 0
    for q in SUM:
        f, use = made(p, q)
        m += len(use)
        nm = "x" * (c["p"] % 7) + "nm"
        if f is not None and q is SUM[c["p"] % len(SUM)]:
            h = call(u.gendot, p, q, name=nm, doc="a doc: " + nm)
            if h.__name__ != nm or not h.__doc__.endswith("a doc: " + nm):
                raise Violation(f"gendot({p.__name__}, {q.__name__}, name={nm!r}): __name__ is {h.__name__!r}, __doc__ {h.__doc__!r}")
    return f"{p.__name__}: {m} loops" if m else ""


def icase(s):
    return {"p": s.below(len(PROD)), "s": s.below(len(SUM)), "bad": s.byte(), "which": s.byte() % 2}


BAD1 = [None, 3, "add", len, np.sin, np.modf, np.divmod, u.cross2, u.gmean, u.minmax, np.add.reduce, np.matmul, lambda a, b: a]
BAD2 = [None, 3, "add", len, np.sin, np.modf, np.divmod, u.cross2, u.minmax, u.pearson_corr, u.softmax, u.meanvar, np.add.reduce, np.matmul]


def ibody(c):
    bad = (BAD1 if c["which"] == 0 else BAD2)
    b = bad[c["bad"] % len(bad)]
    a = (b, SUM[c["s"]]) if c["which"] == 0 else (PROD[c["p"]], b)
    try:
        r = u.gendot(*a)
    except ValueError:
        return "rejected"
    except Exception as e:
        raise Violation(f"gendot{a} raised {type(e).__name__} instead of ValueError")
    raise Violation(f"gendot{a} = {r}; expected ValueError")


def facets(tier):
    return [Facet("types", [{"p": i} for i in range(len(PROD))], tbody, len(PROD), len(PROD), enum=True,
                  rule="prodfunc composes with some sumfunc", evals=lambda c: len(SUM)),
            Facet("values", src(case, 700), body, 40000, 1000000, rule="the two sides were compared (or both raise); labelled by length"),
            Facet("invalid", src(icase, 10), ibody, 200, 2000, rule="an unsuitable function was given")] + longf.facets("P37")
