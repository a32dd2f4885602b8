"""ordered and all_same against Python loops."""
import numpy as np
import ufunclab as u
import longf
from core import Facet, Violation, call
from arr import mk, styled, pl
from gen import src, vec
from p18 import items, OPS, ONAMES

TECHNIQUE = "a Python loop over adjacent pairs"
NOTE = "All dtypes including object, all six operators, arrays built to be ordered except at one place, nan, 9 layouts, 7 call styles."
DTS = list("bBhHiIlLfdg")


def extra(s, dt, n, B):
    return {"op": s.many(B, lambda: s.pick(ONAMES)), "how": s.many(B, lambda: s.rng(0, 7)),
            "at": s.many(B, lambda: s.rng(0, 40))}


def shape_rows(x, c):
    """sorted, reversed or constant rows, some with one element out of place"""
    n = x.shape[1]
    if n == 0:
        return x
    x = x.copy()
    for b in range(len(x)):
        h = c["how"][b]
        k = c["at"][b] % n
        if h in (1, 2, 3, 4):
            q = sorted(list(x[b]), reverse=h > 2)
            for i in range(n):
                x[b, i] = q[i]
            if h in (2, 4):
                j = (k + 1) % n
                t = x[b, k]
                x[b, k] = x[b, j]
                x[b, j] = t
        elif h in (5, 6):
            old = x[b, k]
            for i in range(n):
                x[b, i] = x[b, 0]
            if h == 6:
                x[b, k] = old
        elif h == 7:
            q = sorted(set(list(x[b])))
            for i in range(n):
                x[b, i] = q[min(i, len(q) - 1)]
    return x


def check_rows(x, c, dt):
    B = len(x)
    rows = [items(x[b]) for b in range(B)]
    wo = [all(OPS[c["op"][b]](r[i], r[i + 1]) for i in range(len(r) - 1)) for b, r in enumerate(rows)]
    ws = [all(r[i] == r[0] for i in range(1, len(r))) for r in rows]
    op = np.array([getattr(u.op, k) for k in c["op"]], dtype=np.int8)
    g = styled(u.ordered, [x, op], c["sty"], outdt="?")[0]
    if g.dtype != np.bool_ or g.tolist() != wo:
        raise Violation(f"ordered[{dt}]({x!r}, {c['op']}) = {g!r}, expected {wo}")
    g = styled(u.all_same, [x], c["sty"], outdt="?")[0]
    if g.dtype != np.bool_ or g.tolist() != ws:
        raise Violation(f"all_same[{dt}]({x!r}) = {g!r}, expected {ws}")
    if x.shape[1] < 2:
        return ""
    return ("True" if any(wo) else "False") + (" same" if any(ws) else "")


def body(c):
    x = mk(c["x"], c["dt"], (len(c["x"]), c["n"]))
    if c["dt"] in "fdg":
        nan = np.isnan(x)
        x = shape_rows(np.where(nan, np.dtype(c["dt"]).type(2), x), c)
        x[nan & (np.array(c["how"])[:, None] % 2 == 0)] = np.nan
    else:
        x = shape_rows(x, c)
    return check_rows(x, c, c["dt"])


def ocase(s):
    n, B = s.rng(0, 8), s.rng(1, 2)
    c = extra(s, "O", n, B)
    c.update(n=n, sty=s.style(), x=s.many(B, lambda: s.many(n, s.obj)))
    return c


def obody(c):
    return check_rows(shape_rows(mk(c["x"], "O", (len(c["x"]), c["n"])), c), c, "O")


def facets(tier):
    return [Facet("numeric", [vec([d], nan=True, inf=True, extra=extra, nmax=14) for d in DTS], body, 24000, 400000,
                  rule="at least two elements, labelled by the result", evals=lambda c: 2 * len(c["x"])),
            Facet("object", src(ocase), obody, 4000, 80000, rule="at least two elements")] + longf.facets("P21")
