"""rms, vnorm, vdot against exact / mpmath evaluation of their definitions."""
from fractions import Fraction
import numpy as np
import ufunclab as u
from mpmath import mp, mpf
import longf
from core import Facet, Violation, call
from arr import mk, styled, pl, lay
from gen import src, NAN, INF
from mpx import tomp, eps
from exact import fr, frs, EPS, near, mags

TECHNIQUE = "the definitions evaluated exactly or in mpmath, with a summation error budget"
NOTE = ("Real and complex types, orders 1, 2, inf, between and huge, magnitudes near both ends of the exponent range for vnorm, "
        "length 0, nan and infinities at any position, nonpositive orders, layouts and call styles.")


def cplx(x, y, dt):
    z = np.empty(x.shape, dtype=dt)
    z.real, z.imag = x, y
    return z


def rows(s, rd, n, B, emax, scale=None):
    out = []
    for _ in range(B):
        el = mags(s, rd, emax)
        out.append([el() for _ in range(n)])
    return out


def sprinkle(s, r, n):
    """put nan / inf into a row sometimes"""
    if n and s.chance(1, 8):
        for _ in range(s.rng(1, 2)):
            r[s.below(n)] = s.pick([INF, -INF, NAN])


# ---------------------------------------------------------------- vnorm
def vcase(s, dt):
    n, B = s.rng(0, 9), s.rng(1, 2)
    rd = dt.lower()
    c = {"dt": dt, "n": n, "sty": s.style(), "x": rows(s, rd, n, B, 40),
         "p": s.many(B, lambda: s.pick([1.0, 2.0, INF, 1.0, 2.0, INF, 3.0, 1.5, 0.5, 100.0, 1000.0, 4.25, s.rng(1, 64) / 4, float(s.pick([3, 5, 7, 9]) << s.rng(0, 40)), s.pick([1, 3, 5, 7]) / (1 << s.rng(2, 5)), s.rng(1, 3) + s.near0(9) * 2.0 ** -s.rng(5, 40), 0.0, -1.0])),
         "e": s.many(B, lambda: s.pick([0, 0, 0, s.near0(60), s.near0(900), -1020, 980]))}
    if dt in "FDG":
        c["y"] = rows(s, rd, n, B, 40)
    for r in c["x"] + c.get("y", []):
        sprinkle(s, r, n)
    return c


def vbody(c):
    dt, n, B = c["dt"], c["n"], len(c["x"])
    rd = dt.lower()
    x = mk(c["x"], rd, (B, n))
    y = mk(c["y"], rd, (B, n)) if "y" in c else None
    lim = {"f": 80, "d": 950, "g": 16000}[rd]
    for b in range(B):
        e = max(-lim - 20, min(lim - 10, c["e"][b] * (16 if rd == "g" else 1)))
        x[b] = np.ldexp(x[b], e)
        if y is not None:
            y[b] = np.ldexp(y[b], e)
    a = x if y is None else cplx(x, y, dt)
    p = mk(c["p"], rd, (B,))
    g = styled(u.vnorm, [a, p], c["sty"], outdt=rd)[0]
    if g.dtype != np.dtype(rd):
        raise Violation(f"vnorm[{dt}]: result {g.dtype}")
    E = eps(rd)
    sub = mpf(2) ** {"f": -148, "d": -1073, "g": -16444}[rd]
    mx = mpf(2) ** {"f": 128, "d": 1024, "g": 16384}[rd]
    lab = ""
    for b in range(B):
        what = f"vnorm[{dt}]({pl(a[b])}, {p[b]!s}) = {g[b]!s}"
        if not p[b] > 0:
            if g[b] == g[b]:
                raise Violation(what + ", expected nan")
            continue
        with np.errstate(all="ignore"):
            inf = np.isinf(a[b].real) | np.isinf(a[b].imag)
            nan = np.isnan(a[b]) & ~inf
        if nan.any():
            # a complex element with one infinite and one nan part counts as infinite
            if g[b] == g[b]:
                raise Violation(what + ", expected nan")
            lab = lab or "nan"
            continue
        if inf.any():
            if g[b] != INF:
                raise Violation(what + ", expected inf")
            lab = lab or "inf"
            continue
        if y is None:
            m = [abs(tomp(v)) for v in x[b]]
        else:
            m = [mp.sqrt(tomp(v.real) ** 2 + tomp(v.imag) ** 2) for v in a[b]]
        P = tomp(p[b]) if np.isfinite(p[b]) else mp.inf
        M = max(m) if m else mpf(0)
        if M == 0:
            v, rel = mpf(0), mpf(0)
        elif mp.isinf(P):
            v, rel = M, 2 * E
        else:
            v = M * sum((q / M) ** P for q in m) ** (1 / P)
            # each term: relative error (P + 1) eps, or below the smallest number; n additions; the root
            rel = E * (4 + (n + 4 * P + 4) / P + mp.log(n + 1) / P)
        if v >= mx * (1 - rel - E):
            if not (np.isinf(g[b]) or abs(tomp(g[b]) - v) <= rel * v):
                raise Violation(what + f", the exact value is {mp.nstr(v, 20)}")
            continue
        # elements near the smallest numbers are given with few bits: the ratios are still exact enough
        if not np.isfinite(g[b]) or abs(tomp(g[b]) - v) > rel * v + 4 * (n + 1) * sub:
            raise Violation(what + f", the exact value is {mp.nstr(v, 22)}")
        if n > 1:
            lab = "order " + str(c["p"][b] if c["p"][b] in (1, 2, INF) else "other")
    return lab


# ---------------------------------------------------------------- rms and vdot
def rcase(s, dt):
    n, B = s.rng(0, 12), s.rng(1, 3)
    rd = dt.lower()
    em = {"f": 40, "d": 300, "g": 800}[rd]
    c = {"dt": dt, "n": n, "sty": s.style(), "x": rows(s, rd, n, B, em), "y": rows(s, rd, n, B, em)}
    for r in c["x"]:
        sprinkle(s, r, n)
    return c


def rbody(c):
    dt, n, B = c["dt"], c["n"], len(c["x"])
    rd = dt.lower()
    x, y = mk(c["x"], rd, (B, n)), mk(c["y"], rd, (B, n))
    a = x if dt == rd else cplx(x, y, dt)
    if n:
        g = styled(u.rms, [a], c["sty"], outdt=rd)[0]
    else:
        g = np.full(B, NAN, dtype=rd)          # rms rejects empty arrays (P39)
    if g.dtype != np.dtype(rd):
        raise Violation(f"rms[{dt}]: result {g.dtype}")
    E = Fraction(EPS[rd])
    lab = ""
    for b in range(B):
        what = f"rms[{dt}]({pl(a[b])}) = {g[b]!s}"
        if n == 0:
            continue
        if not np.isfinite(x[b]).all():
            want = NAN if np.isnan(x[b]).any() else INF
            if not (g[b] == want or (want != want and g[b] != g[b])):
                raise Violation(what + f", expected {want}")
            lab = lab or "nonfinite"
            continue
        q = sum((f * f for f in frs(x[b]) + (frs(y[b]) if dt != rd else [])), Fraction(0)) / n
        gg = fr(g[b]) if np.isfinite(g[b]) else None
        tiny = Fraction(1, 2 ** {"f": 148, "d": 1073, "g": 16444}[rd])
        if gg is None or abs(gg * gg - q) > 2 * (2 * n + 6) * E * q + 4 * tiny * n + 4 * tiny * tiny:
            raise Violation(what + f", the exact value is {mp.nstr(mp.sqrt(mpf(q.numerator) / q.denominator), 22)}")
        if n > 1:
            lab = "rms " + dt
    if dt != rd:
        return lab
    g = styled(u.vdot, [x, y], c["sty"], outdt=rd)[0]
    if g.dtype != np.dtype(rd):
        raise Violation(f"vdot[{dt}]: result {g.dtype}")
    for b in range(B):
        what = f"vdot[{dt}]({pl(x[b])}, {pl(y[b])}) = {g[b]!s}"
        if not np.isfinite(x[b]).all():
            with np.errstate(all="ignore"):
                t = x[b] * y[b]
                want = t.sum() if n else 0
            if not (g[b] == want or (want != want and g[b] != g[b])):
                raise Violation(what + f", expected {want}")
            continue
        pr = [f * h for f, h in zip(frs(x[b]), frs(y[b]))]
        S, A = sum(pr, Fraction(0)), sum((abs(f) for f in pr), Fraction(0))
        if not near(g[b], S, (n + 2) * E * A, rd) and not abs(fr(g[b]) - S) <= (n + 2) * E * A + n * Fraction(
                1, 2 ** {"f": 148, "d": 1073, "g": 16444}[rd]):
            raise Violation(what + f", the exact value is {float(S)!r}")
    return lab


def facets(tier):
    return [Facet("vnorm", [src(lambda s, d=d: vcase(s, d), 600) for d in "fdgFDG"], vbody, 7000, 150000,
                  evals=lambda c: len(c["x"]), rule="more than one element, nan or an infinity; labelled by the order"),
            Facet("rms, vdot", [src(lambda s, d=d: rcase(s, d), 700) for d in "fdgFDG"], rbody, 9000, 200000,
                  evals=lambda c: 2 * len(c["x"]), rule="more than one element, nan or an infinity")] + longf.facets("P27")
