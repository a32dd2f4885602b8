"""cross2, cross3, tri_area, tri_area_indexed against exact rational geometry."""
import math
from fractions import Fraction
import numpy as np
import ufunclab as u
import longf
from core import Facet, Violation, call
from arr import mk, styled, pl, lay, same
from gen import src, NAN, INF
from exact import fr, frs, EPS, near, mags

TECHNIQUE = "exact rational cross products and Gram determinants, with the error budget of the edge-length formula"
NOTE = ("Types i, l, f, d, g, object for cross; f, d, g for triangles in 0 to 7 dimensions: general, needle-like, collinear, coincident and "
        "offset points, all vertex orders, indices negative, at the limits, out of range and extreme; layouts and call styles.")


def ccase(s, dt):
    k, B = s.rng(2, 3), s.rng(1, 3)
    if dt in "il":
        lim = 30000 if dt == "i" else 2 ** 30
        el = s.pick([lambda: s.near0(4), lambda: s.near0(lim)])
    elif dt == "O":
        el = s.obj
    else:
        el = mags(s, dt, {"f": 50, "d": 400, "g": 900}[dt])
    return {"dt": dt, "k": k, "sty": s.style(), "x": s.many(B, lambda: s.many(k, el)), "y": s.many(B, lambda: s.many(k, el)),
            "how": s.many(B, lambda: s.byte() % 6), "sp": s.many(B, lambda: [s.byte(), s.byte()])}


def cbody(c):
    dt, k, B = c["dt"], c["k"], len(c["x"])
    x, y = mk(c["x"], dt, (B, k)), mk(c["y"], dt, (B, k))
    for b, h in enumerate(c["how"]):
        if h < 2 and c["sp"][b][0] % 3 == 0 and dt in "fdg":
            x[b, c["sp"][b][0] // 3 % k] = [NAN, INF, -INF][c["sp"][b][1] % 3]
        if h == 0:
            y[b] = x[b]
    f = u.cross2 if k == 2 else u.cross3
    g = styled(f, [x, y], c["sty"], outdt=dt)[0]
    h = styled(f, [y, x], c["sty"], outdt=dt)[0]
    if g.dtype != np.dtype(dt):
        raise Violation(f"cross{k}[{dt}]: result {g.dtype}")
    E = Fraction(EPS.get(dt, 0))
    lab = ""
    for b in range(B):
        if dt in "fdg" and not np.isfinite(x[b]).all():
            with np.errstate(all="ignore"):
                u0, v0 = x[b], y[b]
                w = np.array([u0[m] * v0[n] - u0[n] * v0[m] for m, n in ([(0, 1)] if k == 2 else [(1, 2), (2, 0), (0, 1)])])
            r = np.atleast_1d(g[b])
            for i in range(len(w)):
                if not np.isfinite(w[i]) and not (r[i] == w[i] or np.isnan(r[i]) and np.isnan(w[i])):
                    raise Violation(f"cross{k}[{dt}]({pl(x[b])}, {pl(y[b])})[{i}] = {r[i]!s}, expected {w[i]!s}")
            lab = lab or dt + " nonfinite"
            continue
        p, q = (list(x[b]), list(y[b])) if dt == "O" else (frs(x[b]), frs(y[b]))
        idx = [(0, 1)] if k == 2 else [(1, 2), (2, 0), (0, 1)]
        got, rev = (g[b], h[b]) if k == 3 else (np.array([g[b]], dtype=dt), np.array([h[b]], dtype=dt))
        for i, (m, n) in enumerate(idx):
            v = p[m] * q[n] - p[n] * q[m]
            what = f"cross{k}[{dt}]({pl(x[b])}, {pl(y[b])})[{i}] = {got[i]!s}"
            if dt == "O":
                if not (got[i] == v or got[i] != got[i] and v != v) or type(got[i]) is not type(v):
                    raise Violation(what + f" ({type(got[i])}), expected {v!r}")
            elif not near(got[i], v, 2 * E * (abs(p[m] * q[n]) + abs(p[n] * q[m])), dt if dt in "fdg" else None):
                raise Violation(what + f", the exact value is {float(v)!r}")
            if not (got[i] == -rev[i] or got[i] != got[i]) and dt != "O":
                raise Violation(what + f", but {rev[i]!s} with the arguments exchanged")
            if v:
                lab = dt + " nonzero"
    return lab or (dt + " zero")


# ---------------------------------------------------------------- triangles
def points(s, dt, m, n):
    """m points in n dimensions"""
    k = s.byte() % 7
    el = mags(s, dt, {"f": 25, "d": 200, "g": 400}[dt])
    if k == 0:
        p = [[float(s.near0(5)) for _ in range(n)] for _ in range(m)]
    elif k == 1:                            # collinear, with exact or rounded positions
        a, d = [float(s.near0(20)) for _ in range(n)], [s.near0(40) / s.pick([4, 3, 7, 8]) for _ in range(n)]
        t = [s.near0(12) / s.pick([1, 2, 3]) for _ in range(m)]
        p = [[a[j] + d[j] * t[i] for j in range(n)] for i in range(m)]
    elif k == 2:                            # needle: two points close together, or one between two others
        p = [[s.near0(1000) / 8 for _ in range(n)] for _ in range(m)]
        for i in range(1, m):
            if s.byte() & 1:
                p[i] = [v + s.near0(5) * 2.0 ** -s.rng(1, 20) for v in p[0]]
    elif k == 3:                            # coincident
        a = [el() for _ in range(n)]
        p = [list(a) if s.byte() & 1 else [el() for _ in range(n)] for _ in range(m)]
    elif k == 4:                            # far from the origin
        o = s.near0(60000) * 16.0
        p = [[o + s.near0(40) / 8 for _ in range(n)] for _ in range(m)]
    else:
        p = [[el() for _ in range(n)] for _ in range(m)]
    return [[v if isinstance(v, list) else float(np.float32(v)) if dt == "f" else v for v in r] for r in p]


def area2(p):
    """exact squared area, squared edge lengths"""
    e = [[b - a for a, b in zip(p[i], p[j])] for i, j in ((0, 1), (0, 2), (1, 2))]
    d = lambda a, b: sum((x * y for x, y in zip(a, b)), Fraction(0))
    return (d(e[0], e[0]) * d(e[1], e[1]) - d(e[0], e[1]) ** 2) / 4, sorted((d(v, v) for v in e), reverse=True)


def up(q):
    """an upper estimate of sqrt(q)"""
    if q == 0:
        return Fraction(0)
    e = (q.numerator.bit_length() - q.denominator.bit_length()) // 2
    return Fraction(math.sqrt(float(q / Fraction(4) ** e)) * 1.0001) * Fraction(2) ** e


def area_ok(g, p, n, dt):
    if not np.isfinite(g) or g < 0:
        return False, None
    A2, L = area2(p)
    a, c = up(L[0]), up(L[2])
    E = Fraction(EPS[dt])
    tiny = Fraction(1, 2 ** {"f": 60, "d": 500, "g": 8000}[dt])      # products of four lengths underflow
    bud = 4 * (n + 6) * E * (a ** 3 * c + A2) + tiny ** 2
    return abs(fr(g) ** 2 - A2) <= bud, A2


def tcase(s, dt):
    n, B = s.pick([2, 3, 2, 3, 1, 4, 7, 0]), s.rng(1, 3)
    return {"dt": dt, "n": n, "sty": s.style(), "p": [points(s, dt, 3, n) for _ in range(B)], "perm": s.rng(0, 5)}


def tbody(c):
    dt, n, B = c["dt"], c["n"], len(c["p"])
    p = mk(c["p"], dt, (B, 3, n))
    g = styled(u.tri_area, [p], c["sty"], outdt=dt)[0]
    o = [(0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0), (0, 1, 2)][c["perm"]]
    h = call(u.tri_area, p[:, o])
    if g.dtype != np.dtype(dt):
        raise Violation(f"tri_area[{dt}]: result {g.dtype}")
    lab = ""
    for b in range(B):
        e = [frs(r) for r in p[b]]
        for v, q in ((g[b], p[b]), (h[b], p[b][list(o)])):
            ok, A2 = area_ok(v, e, n, dt)
            if not ok:
                raise Violation(f"tri_area[{dt}]({pl(q)}) = {v!s}, the exact area is {math.sqrt(area2(e)[0])!r}")
        if h[b] != g[b]:
            raise Violation(f"tri_area[{dt}]({pl(p[b])}) = {g[b]!s}, but {h[b]!s} with the vertices in the order {o}")
        lab = "nondegenerate" if A2 else lab or "degenerate"
    return lab


def icase(s, dt):
    n, m, B = s.pick([2, 3, 1, 4]), s.rng(1, 8), s.rng(1, 3)
    ix = lambda: s.pick([s.near0(m), s.rng(0, m - 1), s.rng(0, m - 1), -s.rng(1, m), m, -m - 1, 2 ** 62, -2 ** 62, 2 ** 63 - 1, -2 ** 63]) \
        if s.chance(1, 4) else s.rng(-m, m - 1)
    return {"dt": dt, "n": n, "m": m, "sty": s.style(), "p": [points(s, dt, m, n) for _ in range(B)],
            "i": s.many(B, lambda: s.many(3, ix))}


def ibody(c):
    dt, n, m, B = c["dt"], c["n"], c["m"], len(c["p"])
    p = mk(c["p"], dt, (B, m, n))
    ix = np.array(c["i"], dtype=np.int64)
    g = styled(u.tri_area_indexed, [p, ix], c["sty"], outdt=dt)[0]
    lab = ""
    for b in range(B):
        what = f"tri_area_indexed[{dt}]({pl(p[b])}, {c['i'][b]}) = {g[b]!s}"
        if any(not -m <= i < m for i in c["i"][b]):
            if g[b] == g[b]:
                raise Violation(what + ", expected nan for an index out of range")
            lab = lab or "out of range"
            continue
        q = [frs(p[b, i]) for i in c["i"][b]]
        ok, A2 = area_ok(g[b], q, n, dt)
        if not ok:
            raise Violation(what + f", the exact area is {math.sqrt(area2(q)[0])!r}")
        d = call(u.tri_area, p[b][c["i"][b]])
        if d != g[b]:
            raise Violation(what + f", but tri_area of the points is {d!s}")
        lab = "area" if A2 else lab or "degenerate"
    return lab


def facets(tier):
    return [Facet("cross", [src(lambda s, d=d: ccase(s, d)) for d in "ilfdgO"], cbody, 7000, 150000,
                  evals=lambda c: 2 * len(c["x"]), rule="every case, labelled by dtype and whether the product is zero"),
            Facet("tri_area", [src(lambda s, d=d: tcase(s, d), 500) for d in "fdg"], tbody, 6000, 150000,
                  evals=lambda c: 2 * len(c["p"]), rule="every case, labelled by whether the exact area is zero"),
            Facet("tri_area_indexed", [src(lambda s, d=d: icase(s, d), 600) for d in "fdg"], ibody, 5000, 120000,
                  evals=lambda c: 2 * len(c["p"]), rule="every case")] + longf.facets("P34")
