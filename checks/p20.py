"""searchsortedl / searchsortedr against counting and numpy.searchsorted."""
import numpy as np
import ufunclab as u
import longf
from core import Facet, Violation, call
from arr import mk, styled, lay, pl, INTS
from gen import src, vec
from p18 import items

TECHNIQUE = "counting elements in a Python loop, and numpy.searchsorted"
NOTE = "All dtypes including float16, longdouble and object, runs of ties, infinities, nan at the end, broadcasting of both arguments."
DTS = list("bBhHiIlLefdg")


def key(a):
    return a if a == a else None


def less(a, b):
    """NumPy sort order: nan is the largest"""
    if b != b:
        return a == a
    return a < b


def extra(s, dt, n, B):
    return {"v": s.many(B, lambda: s.value(dt, nan=True, inf=True)), "pick": s.many(B, lambda: s.rng(0, 40) - 1),
            "nan": s.chance(1, 4)}


def body(c):
    dt, n, B = c["dt"], c["n"], len(c["x"])
    x = mk(c["x"], dt, (B, n))
    if dt in "efdg" and not c["nan"]:
        x = np.where(np.isnan(x), np.dtype(dt).type(1), x)
    x = np.sort(x, axis=-1)
    v = mk(c["v"], dt, (B,))
    for b, k in enumerate(c["pick"]):
        if 0 <= k < n:
            v[b] = x[b, k]
    xs, vs = [items(x[b]) for b in range(B)], items(v)
    want = {"searchsortedl": [sum(less(e, vs[b]) for e in xs[b]) for b in range(B)],
            "searchsortedr": [sum(not less(vs[b], e) for e in xs[b]) for b in range(B)]}
    lab = ""
    for nm, w in want.items():
        f = getattr(u, nm)
        g = styled(f, [x, v], c["sty"], outdt="l")[0]
        if g.dtype != np.intp or g.tolist() != w:
            raise Violation(f"{nm}[{dt}]({pl(x)}, {pl(v)}) = {pl(g)}, expected {w}")
        side = "left" if nm[-1] == "l" else "right"
        for b in range(B):
            if np.searchsorted(x[b], v[b], side) != g[b]:
                raise Violation(f"{nm}[{dt}]({pl(x[b])}, {v[b]!r}) = {g[b]}, numpy.searchsorted differs")
        # every pair, by broadcasting
        g2 = call(f, lay(x[:, None, :], c["sty"]["lay"][2]), lay(v[None, :], c["sty"]["lay"][3]))
        w2 = [[int(np.searchsorted(x[i], v[j], side)) for j in range(B)] for i in range(B)]
        if g2.tolist() != w2:
            raise Violation(f"{nm}[{dt}]({pl(x)}, {pl(v)}) broadcast to pairs: {g2.tolist()}, expected {w2}")
    if want["searchsortedl"] != want["searchsortedr"]:
        lab = "tie"
    elif n:
        lab = "between" if any(0 < k < n for k in want["searchsortedl"]) else "at an end"
    return lab


def ocase(s):
    n, B = s.rng(0, 8), s.rng(1, 2)
    return {"n": n, "sty": s.style(), "x": s.many(B, lambda: s.many(n, s.obj)), "v": s.many(B, s.obj),
            "pick": s.many(B, lambda: s.rng(0, 12) - 1)}


def obody(c):
    n, B = c["n"], len(c["x"])
    x = mk(c["x"], "O", (B, n))
    for b in range(B):
        for i, e in enumerate(sorted(x[b])):
            x[b, i] = e
    v = mk(c["v"], "O", (B,))
    for b, k in enumerate(c["pick"]):
        if 0 <= k < n:
            v[b] = x[b, k]
    gl = styled(u.searchsortedl, [x, v], c["sty"], outdt="l")[0].tolist()
    gr = styled(u.searchsortedr, [x, v], c["sty"], outdt="l")[0].tolist()
    wl = [sum(e < v[b] for e in x[b]) for b in range(B)]
    wr = [sum(e <= v[b] for e in x[b]) for b in range(B)]
    if gl != wl or gr != wr:
        raise Violation(f"searchsortedl/r({x!r}, {v!r}) = {gl}, {gr}; expected {wl}, {wr}")
    return "object" if n else ""


def facets(tier):
    return [Facet("numeric", [vec([d], nan=True, inf=True, extra=extra, nmax=16) for d in DTS], body, 20000, 400000,
                  evals=lambda c: 4 * len(c["x"]), rule="a non-empty sorted array, labelled by where the value lies"),
            Facet("object", src(ocase), obody, 4000, 80000, rule="a non-empty sorted object array")] + longf.facets("P20")
