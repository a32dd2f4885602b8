"""meanvar and pearson_corr against exact rational arithmetic."""
import math
from fractions import Fraction
import numpy as np
import ufunclab as u
from mpmath import mp, mpf
import longf
from core import Facet, Violation, call
from arr import mk, styled, pl, lay, INTS
from gen import src
from mpx import tomp
from exact import fr, frs, EPS, near, mags, TINYF

TECHNIQUE = "exact rational mean, variance and correlation, with an error budget from the condition number"
NOTE = ("All integer and floating point types, large offsets, extreme integers, constant and exactly linear data, ddof negative to above n, "
        "ddof broadcast, layouts and call styles.")
MDT = list("bBhHiIlLfdg")
TUNE = {}


def tune(k, r):
    TUNE[k] = max(TUNE.get(k, 0), r)
    import sf
    sf.STAT[k] = (float(TUNE[k]),)


def row(s, dt, n):
    if dt in INTS:
        k = s.byte() % 4
        if k == 0:
            return [s.small(dt) for _ in range(n)]
        if k == 1:
            c, lo, hi = s.integer(dt), int(np.iinfo(dt).min), int(np.iinfo(dt).max)
            return [min(hi, max(lo, c + s.near0(9))) for _ in range(n)]
        return [s.integer(dt) for _ in range(n)]
    el = mags(s, dt, {"f": 50, "d": 400, "g": 700}[dt])
    x = [el() for _ in range(n)]
    if s.chance(1, 8):
        x = [x[0]] * n
    return x


def mcase(s, dt):
    n, B = s.rng(1, 12), s.rng(1, 3)
    return {"dt": dt, "n": n, "sty": s.style(), "ddof": s.many(B, lambda: s.pick([0, 1, 0, 1, 2, 3, -1, 7, n])),
            "rep": s.rng(2, 40) if s.chance(1, 30) else 1, "x": [row(s, dt, n) for _ in range(B)]}


def moments(fs):
    n = len(fs)
    m = sum(fs, Fraction(0)) / n
    return m, sum(((f - m) ** 2 for f in fs), Fraction(0))


def _fs(q):
    e = (q.numerator.bit_length() - q.denominator.bit_length()) // 2
    t = q / Fraction(4) ** e
    return Fraction(math.sqrt(float(t)) * 1.001) * Fraction(2) ** e


def mbody(c):
    dt, B = c["dt"], len(c["x"])
    x = mk(c["x"], dt, (B, c["n"]))
    if c["rep"] > 1:
        x = np.concatenate([x] * c["rep"], axis=1)
    n = x.shape[1]
    dd = np.array(c["ddof"], dtype=np.int64)
    od = dt if dt in "fg" else "d"
    g = styled(u.meanvar, [x, dd], c["sty"], outdt=od)[0]
    if g.dtype != np.dtype(od) or g.shape != (B, 2):
        raise Violation(f"meanvar[{dt}]: result {g.dtype}{g.shape}")
    E = Fraction(EPS[od])
    lab = ""
    for b in range(B):
        fs = frs(x[b])
        m, ss = moments(fs)
        A = max(abs(f) for f in fs)
        mb = 4 * E * A
        if not near(g[b, 0], m, mb, od):
            raise Violation(f"meanvar[{dt}]({pl(x[b])}, {dd[b]})[0] = {g[b, 0]!s}, the mean is {float(m)!r}")
        k = n - int(dd[b])
        if k == 0:
            continue
        sd = _fs(ss / n)
        vb = (8 * E * A * sd + (4 * E * A) ** 2 + 8 * E * ss / n) * n / abs(k) + n * TINYF[od] * 4
        if not near(g[b, 1], ss / k, vb, od):
            raise Violation(f"meanvar[{dt}]({pl(x[b])}, {dd[b]})[1] = {g[b, 1]!s}, the variance is {float(ss / k)!r} "
                            f"(budget {float(vb):.3g})")
        tune("mean " + od, abs(fr(g[b, 0]) - m) / mb if mb else 0)
        tune("var " + od, abs(fr(g[b, 1]) - ss / k) / vb if vb else 0)
        if n > 1:
            lab = "constant" if not ss else "offset" if A > 100 * sd else lab or "spread"
    return lab


def ccase(s, dt):
    n, B = s.rng(2, 10), s.rng(1, 3)
    return {"dt": dt, "n": n, "sty": s.style(), "lin": s.many(B, lambda: s.pick([0, 0, 0, 1, 2])),
            "x": [row(s, dt, n) for _ in range(B)], "y": [row(s, dt, n) for _ in range(B)]}


def cbody(c):
    dt, n, B = c["dt"], c["n"], len(c["x"])
    x, y = mk(c["x"], dt, (B, n)), mk(c["y"], dt, (B, n))
    for b, k in enumerate(c["lin"]):
        if k == 1:
            y[b] = x[b]
        elif k == 2 and dt in "fdg":
            y[b] = -2 * x[b]
    od = dt if dt in "fg" else "d"
    g = styled(u.pearson_corr, [x, y], c["sty"], outdt=od)[0]
    h = call(u.pearson_corr, y, x)
    if g.dtype != np.dtype(od):
        raise Violation(f"pearson_corr[{dt}]: result {g.dtype}")
    E = Fraction(EPS[od])
    lab = ""
    for b in range(B):
        fx, fy = frs(x[b]), frs(y[b])
        mx, sx = moments(fx)
        my, sy = moments(fy)
        if sx == 0 or sy == 0:
            # integers that double cannot tell apart may count as constant, never the other way round
            if g[b] == g[b]:
                raise Violation(f"pearson_corr[{dt}]({pl(x[b])}, {pl(y[b])}) = {g[b]!s} for constant data, expected nan")
            lab = lab or "constant"
            continue
        kx = max(abs(f) for f in fx) / _fs(sx / n)
        ky = max(abs(f) for f in fy) / _fs(sy / n)
        bud = 4 * n * E * (1 + kx + ky)
        if n == 2:
            want = 1 if (fx[1] > fx[0]) == (fy[1] > fy[0]) else -1
            if g[b] != want:
                raise Violation(f"pearson_corr[{dt}]({pl(x[b])}, {pl(y[b])}) = {g[b]!s}, expected {want}")
            lab = "two points"
            continue
        if bud > Fraction(1, 20):
            if g[b] == g[b] and not abs(fr(g[b])) <= 1 + 8 * n * E:
                raise Violation(f"pearson_corr[{dt}]({pl(x[b])}, {pl(y[b])}) = {g[b]!s} is outside [-1, 1]")
            continue
        cov = sum(((p - mx) * (q - my) for p, q in zip(fx, fy)), Fraction(0))
        r2 = cov * cov / (sx * sy)
        r = mp.sqrt(mpf(r2.numerator) / mpf(r2.denominator))
        r = r if cov > 0 else -r
        for q, nm in ((g[b], "x, y"), (h[b], "y, x")):
            if not np.isfinite(q) or abs(tomp(q) - r) > float(bud):
                raise Violation(f"pearson_corr[{dt}]({pl(x[b])}, {pl(y[b])}) ({nm}) = {q!s}, the exact value is {mp.nstr(r, 22)}")
        if abs(fr(g[b])) > 1 + 8 * n * E:
            raise Violation(f"pearson_corr[{dt}]({pl(x[b])}, {pl(y[b])}) = {g[b]!s} is outside [-1, 1]")
        if abs(fr(g[b]) - fr(h[b])) > 8 * n * E:
            raise Violation(f"pearson_corr[{dt}] is not symmetric for {pl(x[b])}, {pl(y[b])}: {g[b]!s}, {h[b]!s}")
        tune("corr " + od, float(abs(tomp(g[b]) - r)) / float(bud))
        lab = "linear" if c["lin"][b] else "general"
    return lab


def facets(tier):
    return [Facet("meanvar", [src(lambda s, d=d: mcase(s, d), 500) for d in MDT], mbody, 11000, 300000,
                  evals=lambda c: len(c["x"]), rule="at least two elements, labelled by the kind of data"),
            Facet("pearson", [src(lambda s, d=d: ccase(s, d), 700) for d in MDT], cbody, 8000, 200000,
                  evals=lambda c: 2 * len(c["x"]), rule="constant, two-point, exactly linear or general data that is well enough conditioned")] + longf.facets("P25")
