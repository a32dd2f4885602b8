"""erfcx and the normal distribution against mpmath."""
from mpmath import mp, mpf
import numpy as np
import ufunclab as u
import mpx
import longf
from core import Facet, Violation, call
from gen import src
from sf import (Fn, points_facet, special_facet, logu, uni, near, ints, mix, args, just, REL, NAN, INF)

TECHNIQUE = "mpmath erfc / erfcx (asymptotic series in the tail), plus the reflection relations"
NOTE = "Both tails to the limits of each type, centre, branch points and the 100-cell Chebyshev range of erfcx."


def erfcx_(x):
    if x < 0:
        x2 = x * x
        if x2 > 12000:
            return mpf(10) ** 5100
        return 2 * mp.exp(x2) - erfcx_(-x)
    if x > 30:
        s, t, k = mpf(1), mpf(1), 1
        x2 = 2 * x * x
        while True:
            t = -t * (2 * k - 1) / x2
            if abs(t) < mpf(2) ** -120:
                break
            s += t
            k += 1
        return s / (x * mp.sqrt(mp.pi))
    return mp.exp(x * x) * mp.erfc(x)


def cdf(x):
    if x < -160:
        return mpf(0)
    if x > 160:
        return mpf(1)
    return mp.erfc(-x / mp.sqrt(2)) / 2


def logcdf(x):
    if x < -30:
        t = -x / mp.sqrt(2)
        return mp.log(erfcx_(t) / 2) - t * t
    if x > 160:
        return mpf(0)
    if x > 5:
        return mp.log1p(-mp.erfc(x / mp.sqrt(2)) / 2)
    return mp.log(mp.erfc(-x / mp.sqrt(2)) / 2)


XC = args(mix(uni(-3, 3), uni(-6, 6), uni(-27, 27), uni(0, 60), uni(-107, 0), near(0, 1, 50, -6.1, -20), logu(-60, 4, 0),
              logu("min", "max"), logu(0, 10), near(*range(1, 52), lo=4)))
XN = args(mix(uni(-2, 2), uni(-8, 8), uni(-40, 40), uni(-155, 155), near(-1, 0, 1, lo=1), logu("min", 3, 0), logu(5, 60, 0),
              logu(3, 10, 0), near(5, -5, 10, -10)))
bx = lambda k: (lambda v, E, x: E * abs(v) * (k + 3 * x * x))
F = [Fn("erfcx", u.erfcx, XC, erfcx_,
        lambda v, E, x: E * abs(v) * (12 + (4 * x * x if x < 0 else 0)), npts=10),
     Fn("cdf", u.normal.cdf, XN, cdf, lambda v, E, x: E * abs(v) * (8 + (3 * x * x if x < 0 else 0)), npts=8),
     Fn("sf", u.normal.sf, XN, lambda x: cdf(-x), lambda v, E, x: E * abs(v) * (8 + (3 * x * x if x > 0 else 0)), npts=8),
     Fn("logcdf", u.normal.logcdf, XN, logcdf, lambda v, E, x: E * abs(v) * (8 + (3 * x * x if x > 0 else 0)), npts=8),
     Fn("logsf", u.normal.logsf, XN, lambda x: logcdf(-x), lambda v, E, x: E * abs(v) * (8 + (3 * x * x if x < 0 else 0)),
        npts=8)]


def relcase(s):
    dt = s.pick("dfg")
    return {"dt": dt, "x": [XN(s, dt)[0] for _ in range(24)]}


def relbody(c):
    from arr import mk
    x = mk(c["x"], c["dt"], (len(c["x"]),))
    for a, b in (("sf", "cdf"), ("logsf", "logcdf")):
        p = call(getattr(u.normal, a), x)
        q = call(getattr(u.normal, b), -x)
        if not ((p == q) | (np.isnan(p) & np.isnan(q))).all():
            i = int(np.argmin(p == q))
            raise Violation(f"normal.{a}({x[i]!r}) = {p[i]!r} but normal.{b}({-x[i]!r}) = {q[i]!r}",
                            case={"dt": c["dt"], "x": [c["x"][i]]})
    cd = call(u.normal.cdf, x)
    if not ((cd >= 0) & (cd <= 1)).all() or not (call(u.normal.logcdf, x) <= 0).all():
        raise Violation(f"normal.cdf or logcdf out of range for {x!r}: {cd!r}, {u.normal.logcdf(x)!r}")
    return "batch"


def facets(tier):
    rows = [("erfcx", F[0].f, "fdg", [x], e) for x, e in [(0.0, 1.0), (INF, 0.0), (-INF, INF), (NAN, NAN)]]
    for n, lo, mid, hi in [("cdf", 0, .5, 1), ("sf", 1, .5, 0)]:
        f = getattr(u.normal, n)
        rows += [(n, f, "fdg", [-INF], lo), (n, f, "fdg", [0.0], mid), (n, f, "fdg", [INF], hi), (n, f, "fdg", [NAN], NAN)]
    rows += [("logcdf", u.normal.logcdf, "fdg", [x], e) for x, e in [(INF, 0.0), (-INF, -INF), (NAN, NAN)]]
    rows += [("logsf", u.normal.logsf, "fdg", [x], e) for x, e in [(-INF, 0.0), (INF, -INF), (NAN, NAN)]]
    return [points_facet(F, 9000, 300000),
            Facet("relations", src(relcase, 500), relbody, 3000, 100000, evals=lambda c: 3 * len(c["x"]),
                  rule="every batch: reflection and range"),
            special_facet("special", rows)] + longf.ufacets("P12")
