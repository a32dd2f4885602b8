"""softmax against mpmath."""
import numpy as np
import ufunclab as u
from mpmath import mp, mpf
import longf
from core import Facet, Violation, call
from arr import mk, styled, pl, lay
from gen import src, NAN, INF
from mpx import tomp, eps
from exact import mags

TECHNIQUE = "the definition evaluated in mpmath, with a relative error budget"
NOTE = "Types f, d, g; any magnitudes, near-ties, offsets, infinities and nan at any position, lengths 0 to 40, layouts and call styles."


def case(s, dt):
    n, B = s.rng(1, 10), s.rng(1, 2)
    if s.chance(1, 20):
        n = s.pick([0, 24, 40])
    rows = []
    for _ in range(B):
        k = s.byte() % 8
        el = mags(s, dt, s.pick([3, 5, 7, {"f": 120, "d": 1000, "g": 1000}[dt]]))
        r = [el() for _ in range(n)]
        if k == 7 and n:
            for _ in range(s.rng(1, 3)):
                r[s.below(n)] = s.pick([INF, -INF, NAN, -INF, INF])
        if k == 6:
            r = [s.pick([INF, -INF, 1.0, -INF, -INF]) for _ in range(n)]
        if k == 5 and n:
            o = s.near0(60000) * 1.0
            r = [o + s.near0(200) / 16 for _ in range(n)]
        rows.append(r)
    return {"dt": dt, "n": n, "sty": s.style(), "x": rows}


def body(c):
    dt, n, B = c["dt"], c["n"], len(c["x"])
    x = mk(c["x"], dt, (B, n))
    g = styled(u.softmax, [x], c["sty"], outdt=dt)[0]
    if g.dtype != np.dtype(dt):
        raise Violation(f"softmax[{dt}]: result {g.dtype}")
    E = eps(dt)
    tiny = mpf(2) ** {"f": -148, "d": -1073, "g": -16444}[dt]
    lab = ""
    for b in range(B):
        r, y = x[b], g[b]
        what = f"softmax[{dt}]({pl(r)}) = {pl(y)}"
        if n == 0:
            continue
        pinf = (r == INF).sum()
        if np.isnan(r).any() or pinf > 1 or (r == -INF).all():
            if (y == y).any():
                raise Violation(what + ", expected nan")
            lab = lab or "nan"
            continue
        if pinf == 1:
            if not (y == (r == INF)).all():
                raise Violation(what + ", expected 1 at the infinity and 0 elsewhere")
            lab = "inf"
            continue
        xs = [mpf("-inf") if v == -INF else tomp(v) for v in r]
        M = max(xs)
        ex = [mp.exp(v - M) if M - v < 20000 else mpf(0) for v in xs]
        S = sum(ex)
        for i in range(n):
            d = M - xs[i]
            rel = E * (n + 8 + (2 * d if d < 20000 else 0))
            if not np.isfinite(y[i]) or abs(tomp(y[i]) - ex[i] / S) > rel * ex[i] / S + 4 * tiny:
                raise Violation(what + f": item {i} should be {mp.nstr(ex[i] / S, 22)}")
        if abs(sum(tomp(v) for v in y) - 1) > 4 * n * E or (y < 0).any() or (y > 1).any():
            raise Violation(what + ": not in [0, 1] with sum 1")
        if n > 1:
            lab = "spread" if S > mpf("1.001") else lab or "dominated"
    return lab


def facets(tier):
    return [Facet("values", [src(lambda s, d=d: case(s, d), 500) for d in "fdg"], body, 6000, 150000,
                  evals=lambda c: len(c["x"]), rule="at least two elements; 'dominated' when one element has nearly all the weight")] + longf.facets("P33")
