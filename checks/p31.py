"""unwrap and fillnan1d against their definitions."""
from fractions import Fraction
import numpy as np
import ufunclab as u
import longf
from core import Facet, Violation, call
from arr import mk, styled, pl, lay, same
from gen import src, vec, NAN, INF
from exact import fr, frs, EPS, near, mags, rescale

TECHNIQUE = "the defining relations of unwrapping checked exactly (multiple of the period, step at most half a period), and exact rational interpolation"
NOTE = ("Types f, d, g; random walks in multiples and fractions of the period, exact half-period steps, steps of many periods, non-finite "
        "values at any position; all nan patterns, runs at ends, adjacent runs, infinities; layouts and call styles.")


def ucase(s, dt):
    n, B = s.rng(0, 14), s.rng(1, 3)
    rows, ps = [], []
    for _ in range(B):
        k = s.byte() % 5
        p = float(np.float32(s.pick([1.0, 2.0, 8.0, 360.0, 0.25, 6.283185, s.rng(1, 400) / 16])))
        if k == 0:
            r = [s.near0(40) * p / 8 for _ in range(n)]
        elif k == 1:
            v, r = 0.0, []
            for _ in range(n):
                v += s.near0(24) * p / 16
                r.append(((v / p) % 1.0) * p)
        elif k == 2:
            r = [s.near0(1 << 20) * p / 4 for _ in range(n)]
        elif k == 3:
            el = mags(s, dt, 12)
            r = [el() for _ in range(n)]
        else:                  # jumps of very many periods
            p = s.pick([1.0, 2.0, 0.25, 64.0])
            e = 12 if dt == "f" else 40
            r = [(s.near0(1 << s.rng(1, e)) + s.near0(8) / 8) * p for _ in range(n)]
        if n and s.chance(1, 6):
            r[s.below(n)] = s.pick([NAN, INF, -INF])
        rows.append([v if isinstance(v, list) or k == 4 else float(np.float32(v)) for v in r])
        ps.append(p)
    return {"dt": dt, "n": n, "sty": s.style(), "p": ps, "x": rows}


def ubody(c):
    dt, n, B = c["dt"], c["n"], len(c["x"])
    x, p = mk(c["x"], dt, (B, n)), mk(c["p"], dt, (B,))
    g = styled(u.unwrap, [x, p], c["sty"], outdt=dt)[0]
    if g.dtype != np.dtype(dt):
        raise Violation(f"unwrap[{dt}]: result {g.dtype}")
    E = Fraction(EPS[dt])
    lab = ""
    for b in range(B):
        what = f"unwrap[{dt}]({pl(x[b])}, {p[b]!s}) = {pl(g[b])}"
        if n and not same(g[b, 0], x[b, 0]):
            raise Violation(what + ": the first value changed")
        bad = [k for k in range(n) if not np.isfinite(x[b, k])]
        end = min(bad) if bad else n
        for k in range(max(end, 1), n):
            if g[b, k] == g[b, k]:
                raise Violation(what + f": item {k} should be nan")
        P = fr(p[b])
        for k in range(1, end):
            if not np.isfinite(g[b, k]):
                raise Violation(what + f": item {k} should be finite")
            X, Y, Y0 = fr(x[b, k]), fr(g[b, k]), fr(g[b, k - 1])
            tol = 4 * E * (abs(X) + abs(Y) + abs(Y0) + P)
            q = round((X - Y) / P)
            if abs(X - Y - q * P) > tol:
                raise Violation(what + f": item {k} does not differ from x by a multiple of the period")
            if abs(Y - Y0) > P / 2 + tol:
                raise Violation(what + f": the step to item {k} is larger than half a period")
            d = abs(Y - Y0)
            # unless the step is at the boundary, the result is unique; it is then what numpy.unwrap gives
            if q:
                lab = "wraps"
        if not lab and end > 1:
            lab = "does not wrap"
        if bad and n > 1:
            lab = lab or "nonfinite"
    return lab


def fcase(s, dt):
    n, B = s.rng(0, 14), s.rng(1, 3)
    rows = []
    for _ in range(B):
        el = mags(s, dt, {"f": 100, "d": 1000, "g": 900}[dt])
        dens = s.pick([1, 2, 3, 5, 6, 0, 7])
        r = [NAN if s.byte() % 7 < dens else el() for _ in range(n)]
        if n and s.chance(1, 10):
            r[s.below(n)] = s.pick([INF, -INF, -0.0])
        rows.append(r)
    return {"dt": dt, "n": n, "sty": s.style(), "x": rows}


def fbody(c):
    dt, n, B = c["dt"], c["n"], len(c["x"])
    x = mk(c["x"], dt, (B, n))
    g = styled(u.fillnan1d, [x], c["sty"], outdt=dt)[0]
    if g.dtype != np.dtype(dt):
        raise Violation(f"fillnan1d[{dt}]: result {g.dtype}")
    E = Fraction(EPS[dt])
    lab = ""
    for b in range(B):
        what = f"fillnan1d[{dt}]({pl(x[b])}) = {pl(g[b])}"
        good = [k for k in range(n) if x[b, k] == x[b, k]]
        for k in range(n):
            if x[b, k] == x[b, k]:
                if not same(g[b, k], x[b, k], signed_zero=True):
                    raise Violation(what + f": item {k} changed")
                continue
            L = [j for j in good if j < k]
            R = [j for j in good if j > k]
            if not L and not R:
                if g[b, k] == g[b, k]:
                    raise Violation(what + ": all nan should stay nan")
                continue
            if not L or not R:
                v = x[b, R[0] if R else L[-1]]
                if not same(g[b, k], v):
                    raise Violation(what + f": item {k} should be {v!s}")
                lab = lab or "end"
                continue
            i, j = L[-1], R[0]
            if not (np.isfinite(x[b, i]) and np.isfinite(x[b, j])):
                continue
            l, r = fr(x[b, i]), fr(x[b, j])
            v = l + (r - l) * (k - i) / (j - i)
            if not near(g[b, k], v, 4 * E * max(abs(l), abs(r)) if dt == "g" else 2 * E * abs(v) + Fraction(1, 2 ** 58) * max(abs(l), abs(r)), dt):
                raise Violation(what + f": item {k} should be {float(v)!r}")
            lab = "interior"
        if good and len(good) < n and not lab:
            lab = "other"
    return lab


def facets(tier):
    return [Facet("unwrap", [src(lambda s, d=d: rescale(s, ucase(s, d), ["x", "p"]), 500) for d in "fdg"], ubody, 9000, 200000,
                  evals=lambda c: len(c["x"]), rule="at least two values, labelled by whether a wrap was undone"),
            Facet("fillnan1d", [src(lambda s, d=d: fcase(s, d), 500) for d in "fdg"], fbody, 9000, 200000,
                  evals=lambda c: len(c["x"]), rule="some values are nan and some are not")] + longf.facets("P31")
