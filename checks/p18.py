"""first / argfirst against a literal Python loop."""
import operator
import numpy as np
import longf
from core import Facet, Violation
from arr import mk, styled, same, pl, INTS
from gen import vec, src
import ufunclab as u

OPS = {"LT": operator.lt, "LE": operator.le, "EQ": operator.eq, "NE": operator.ne,
       "GT": operator.gt, "GE": operator.ge}
DTS = list("bBhHiIlLfdg")
ONAMES = sorted(OPS)
TECHNIQUE = "a literal Python loop over the elements"
NOTE = ("All dtypes including object, all six operators, ties and targets that occur, nan and inf, "
        "9 memory layouts, 7 call styles, lengths up to about 40.")


def extra(s, dt, n, B):
    return {"t": s.many(B, lambda: s.value(dt, nan=True, inf=True)),
            "pick": s.many(B, lambda: s.rng(0, 60) - 1),
            "o": s.many(B, lambda: s.value(dt, nan=True, inf=True)),
            "op": s.many(B, lambda: s.pick(ONAMES))}


def arrays(c):
    dt, n, B = c["dt"], c["n"], len(c["x"])
    x = mk(c["x"], dt, (B, n))
    t = mk(c["t"], dt, (B,))
    for b, k in enumerate(c["pick"]):
        if 0 <= k < n:
            t[b] = x[b, k]          # often compare with a value that occurs
    o = mk(c["o"], dt, (B,))
    op = np.array([getattr(u.op, k) for k in c["op"]], dtype=np.int8)
    return x, op, t, o


def ref_index(x, op, t):
    f = OPS[op]
    for i in range(len(x)):
        if f(x[i], t):
            return i
    return -1


def items(a):
    # exact Python comparison values; longdouble scalars compare exactly themselves
    return list(a) if a.dtype == np.longdouble else a.tolist()


def body(c):
    x, op, t, o = arrays(c)
    B, n = x.shape
    ri = [ref_index(items(x[b]), c["op"][b], items(t)[b]) for b in range(B)]
    rv = np.array([x[b, i] if i >= 0 else o[b] for b, i in enumerate(ri)], dtype=c["dt"])
    gi = styled(u.argfirst, [x, op, t], c["sty"], outdt="l")[0]
    if gi.dtype != np.intp or not same(gi, np.array(ri)):
        raise Violation(f"argfirst({pl(x)}, {c['op']}, {pl(t)}) = {pl(gi)} ({gi.dtype}), expected {ri}")
    gv = styled(u.first, [x, op, t, o], c["sty"], outdt=c["dt"])[0]
    if gv.dtype != np.dtype(c["dt"]) or not same(gv, rv, signed_zero=True):
        raise Violation(f"first({pl(x)}, {c['op']}, {pl(t)}, {pl(o)}) = {pl(gv)} ({gv.dtype}), expected {pl(rv)}")
    if all(i < 0 for i in ri):
        return "no match" if n else ""
    return "match after the first" if max(ri) > 0 else "match at the first"


def obj_arrays(c):
    n, B = c["n"], len(c["x"])
    x = mk(c["x"], "O", (B, n))
    t = mk(c["t"], "O", (B,))
    for b, k in enumerate(c["pick"]):
        if 0 <= k < n:
            t[b] = x[b, k]
    o = mk(c["o"], "O", (B,))
    op = np.array([getattr(u.op, k) for k in c["op"]], dtype=np.int8)
    return x, op, t, o


def obody(c):
    x, op, t, o = obj_arrays(c)
    B, n = x.shape
    ri = [ref_index(list(x[b]), c["op"][b], t[b]) for b in range(B)]
    gi = styled(u.argfirst, [x, op, t], c["sty"], outdt="l")[0]
    if not same(gi, np.array(ri)):
        raise Violation(f"argfirst({x!r}, {c['op']}, {t!r}) = {gi!r}, expected {ri}")
    gv = styled(u.first, [x, op, t, o], c["sty"], outdt="O")[0]
    for b in range(B):
        e = x[b, ri[b]] if ri[b] >= 0 else o[b]
        if gv[b] is not e and gv[b] != e:
            raise Violation(f"first({x!r}, {c['op']}, {t!r}, {o!r}) = {gv!r}, item {b} should be {e!r}")
    return "object"


def ocase(s):
    n, B = s.rng(0, 8), s.rng(1, 2)
    return {"n": n, "sty": s.style(), "pick": s.many(B, lambda: s.rng(0, 10) - 1),
            "op": s.many(B, lambda: s.pick(ONAMES)), "t": s.many(B, s.obj), "o": s.many(B, s.obj),
            "x": s.many(B, lambda: s.many(n, s.obj))}


def facets(tier):
    return [
        Facet("numeric", [vec([d], nan=True, inf=True, extra=extra) for d in DTS], body, 22000,
              rule="a non-empty array (any dtype, operator, layout and call style)"),
        Facet("object", src(ocase), obody, 3000, rule="every case"),
    ] + longf.facets("P18")
