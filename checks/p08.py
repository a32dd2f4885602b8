"""Exponential integral functions against mpmath."""
import longf
from mpmath import mp, mpf
import ufunclab as u
from sf import Fn, points_facet, special_facet, logu, uni, near, mix, args, just, REL, NAN, INF

TECHNIQUE = "mpmath E1 at 160 bits and its asymptotic series, error budget of a few rounding units"
NOTE = "All magnitudes from the smallest normal to the overflow limit, dense around the branch points 1 and 500."


def e1(x, log=False):
    if x < 0:
        return "nan"
    if x == 0:
        return "inf"
    if x < mpf(2) ** -70:
        v = -mp.euler - mp.log(x) + x
        return mp.log(v) if log else v
    if x > 200:
        s, t, k = mpf(1), mpf(1), 1
        while True:
            t = -t * k / x
            if abs(t) < mpf(2) ** -120 or k > x:
                break
            s += t
            k += 1
        if log:
            return -x - mp.log(x) + mp.log(s)
        return mp.exp(-x) * s / x if x < 20000 else mpf(0)
    v = mp.e1(x)
    return mp.log(v) if log else v


# the longdouble loop is only claimed to be as good as the float64 one
LD = lambda E: mpf(2) ** -50 if E < mpf(2) ** -60 else 0
PT = args(mix(uni(0, 2), uni(0.9, 1.1), uni(0, 20), uni(0, 120), uni(0, 760), uni(400, 600), near(1), near(500),
              logu(-60, 1), logu("min", 0), logu(0, 10), logu(9, "max"), near(0.2640), near(0.37)))
F = [Fn("expint1", u.expint1, PT, e1, lambda v, E, x: abs(v) * (E * (24 + 2 * x) + LD(E)), npts=12),
     Fn("logexpint1", u.logexpint1, PT, lambda x: e1(x, True), lambda v, E, x: max(1, abs(v)) * (20 * E + LD(E)), npts=12)]


def facets(tier):
    rows = []
    for x, a, b in [(0.0, INF, INF), (-0.0, INF, INF), (INF, 0.0, -INF), (-1.0, NAN, NAN), (-INF, NAN, NAN),
                    (-1e-30, NAN, NAN), (NAN, NAN, NAN)]:
        rows += [("expint1", u.expint1, "fdg", [x], a), ("logexpint1", u.logexpint1, "fdg", [x], b)]
    return [points_facet(F, 10000, 300000), special_facet("special", rows)] + longf.ufacets("P08")
