"""wjaccard against exact rational sums."""
from fractions import Fraction
import numpy as np
import ufunclab as u
import longf
from core import Facet, Violation, call
from arr import mk, styled, pl, lay, INTS
from gen import src, NAN
from exact import fr, frs, EPS, near, mags

TECHNIQUE = "exact rational sums of minima and maxima"
NOTE = "All dtypes, extreme integers, zeros, equal and disjoint vectors, nan, symmetry, layouts and call styles."
DTS = list(u.wjaccard.types)


def row(s, dt, n):
    if dt in INTS:
        k = s.byte() % 3
        f = (lambda: abs(s.small(dt))) if k == 0 else (lambda: min(abs(s.integer(dt)), int(np.iinfo(dt).max)))
        return [f() for _ in range(n)]
    el = mags(s, dt, {"f": 90, "d": 900, "g": 900}[dt], sign=False)
    r = [el() for _ in range(n)]
    if s.chance(1, 20):
        r[s.below(n)] = NAN
    return r


def case(s, dt):
    n, B = s.rng(1, 10), s.rng(1, 3)
    return {"dt": dt, "n": n, "sty": s.style(), "how": s.many(B, lambda: s.pick([0, 0, 0, 1, 2, 3, 4])),
            "x": [row(s, dt, n) for _ in range(B)], "y": [row(s, dt, n) for _ in range(B)]}


def body(c):
    dt, n, B = c["dt"], c["n"], len(c["x"])
    x, y = mk(c["x"], dt, (B, n)), mk(c["y"], dt, (B, n))
    for b, k in enumerate(c["how"]):
        if k == 1:
            y[b] = x[b]
        if k == 3:
            x[b] = y[b] = 0
        if k == 4 and dt in "fdg":
            x[b, n // 2] = NAN
            y[b] = x[b]
        if k == 2:
            x[b, ::2] = 0
            y[b, 1::2] = 0
    od = [t[-1] for t in DTS if t.startswith(dt)][0]
    g = styled(u.wjaccard, [x, y], c["sty"], outdt=od)[0]
    h = call(u.wjaccard, y, x)
    if g.dtype != np.dtype(od):
        raise Violation(f"wjaccard[{dt}]: result {g.dtype}")
    E = Fraction(EPS[od])
    lab = ""
    for b in range(B):
        what = f"wjaccard[{dt}]({pl(x[b])}, {pl(y[b])}) = {g[b]!s}"
        if not (g[b] == h[b] or (g[b] != g[b] and h[b] != h[b])):
            raise Violation(what + f", but {h[b]!s} with the arguments exchanged")
        if dt in "fdg" and (np.isnan(x[b]).any() or np.isnan(y[b]).any()):
            if g[b] == g[b]:
                raise Violation(what + ", expected nan")
            lab = lab or "nan"
            continue
        fx, fy = frs(x[b]), frs(y[b])
        N = sum((min(p, q) for p, q in zip(fx, fy)), Fraction(0))
        D = sum((max(p, q) for p, q in zip(fx, fy)), Fraction(0))
        if D == 0:
            if g[b] == g[b]:
                raise Violation(what + ", expected nan (0/0)")
            continue
        if not near(g[b], N / D, (2 * n + 4) * E * N / D, od) or not 0 <= g[b] <= 1:
            raise Violation(what + f", the exact value is {float(N / D)!r}")
        if fx == fy and g[b] != 1 or N == 0 and g[b] != 0:
            raise Violation(what + f", expected exactly {int(fx == fy)}")
        lab = "equal" if fx == fy else "disjoint" if N == 0 else "general"
    return lab


def facets(tier):
    return [Facet("index", [src(lambda s, d=d: case(s, d), 500) for d in sorted({t[0] for t in DTS})], body, 11000, 300000,
                  evals=lambda c: 2 * len(c["x"]), rule="not both vectors zero; labelled equal, disjoint, nan or general")] + longf.facets("P28")
