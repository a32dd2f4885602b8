"""Logistic family and smooth ramps against mpmath."""
import longf
from mpmath import mp, mpf
import ufunclab as u
from sf import (Fn, points_facet, special_facet, logu, uni, near, ints, mix, args, just, REL, NAN, INF)

TECHNIQUE = "the documented formulas evaluated with mpmath at 160 bits and unlimited exponents"
NOTE = "All magnitudes of x and of the parameters, both signs, dense near 0 and near the overflow points of exp."


def ex(t):
    if t > 30000:
        return mpf(10) ** 13000
    if t < -30000:
        return mpf(10) ** -13000
    return mp.exp(t)


def lgs(x):
    return 1 / (1 + ex(-x)) if x >= 0 else ex(x) / (1 + ex(x))


def lgd(x):
    e = ex(-abs(x))
    return e / (1 + e) ** 2


def llog(x):
    return x - mp.log1p(ex(x)) if x < 0 else -mp.log1p(ex(-x))


def swish(x, b):
    return x * lgs(b * x)


def sw_budget(v, E, x, b):
    t = b * x
    # below the underflow point of the logistic factor the product may be 0
    low = {24: -87, 53: -708, 64: -11355}[int(1 - mp.log(E, 2))]
    if t < low:
        return abs(v) + E * abs(v)
    return E * abs(v) * (4 + 3 * abs(t) * (1 - lgs(t)))


def hyp(x, a):
    if a < 0:
        return "nan"
    if a == 0:
        return max(x, mpf(0))
    r = mp.sqrt(x * x + 4 * a * a)
    return (x + r) / 2 if x > 0 else 2 * a * a / (r - x)


def ramp_tail(x, a):
    """a*log2(1 + 2**(x/a)) for x <= 0"""
    t = x / a
    if t < -60000:
        return mpf(0)
    return a * mp.log1p(mp.power(2, t)) / mp.log(2)


def erp(x, a):
    if a < 0:
        return "nan"
    if a == 0:
        return max(x, mpf(0))
    return x + ramp_tail(-x, a) if x > 0 else ramp_tail(x, a)


def er_budget(v, E, x, a):
    if a <= 0:
        return 0
    t = x / a
    c = 4 + (2 * abs(t) if x < 0 else 0)
    if t < -{24: 120, 53: 1000, 64: 16300}[int(1 - mp.log(E, 2))]:
        return abs(v) * 2          # the factor 2**(x/a) itself underflows
    return E * abs(v) * c


def hyp_budget(v, E, x, a):
    """8 ulp, plus what the documented scaling a*f(x/a) loses when f(x/a) < smallest normal number (x < 0 and
    x/a near or beyond the overflow threshold; the result is then below a/max)"""
    if a <= 0:
        return 0
    bits = {24: 126, 53: 1022, 64: 16382}[int(1 - mp.log(E, 2))]
    slack = 0
    if x < 0 and -x / a >= mpf(2) ** (bits - 4):
        slack = min(abs(v), a * mpf(2) ** -bits * 2)
    elif x < 0:
        slack = a * mpf(2) ** -bits * E * 4
    return 8 * E * abs(v) + slack


XS = mix(uni(-2, 2), uni(-40, 40), uni(-110, 110), uni(-760, 760), logu("min", "max", 0), logu(-60, 10, 0), near(0, lo=1), just(0.0))
BS = mix(uni(-3, 3), just(1.0, 0.0, -1.0), logu(-30, 30, 0), logu("min", "max", 0))
AS = mix(uni(0, 4), logu(-30, 30), logu("min", "max"), just(0.0, 1.0, 2.0), just(-1.0, -1e-3))


def scaled(s, dt):
    """x comparable with a"""
    a = mix(uni(0.1, 4), logu(-100, 100))(s, dt)
    a0 = a[0] if isinstance(a, list) else a
    t = mix(uni(-3, 3), uni(-60, 60), near(2, -2, 0, lo=1), uni(-1100, 1100))(s, dt)
    t0 = t[0] if isinstance(t, list) else t
    from sf import fin
    return [fin(a0 * t0, dt), a]


def ramp_pts(s, dt):
    return scaled(s, dt) if s.byte() % 2 else [XS(s, dt), AS(s, dt)]


def sw_pts(s, dt):
    if s.byte() % 2:
        return [XS(s, dt), BS(s, dt)]
    x = mix(uni(-9, 9), logu(-100, 100, 0))(s, dt)
    x0 = x[0] if isinstance(x, list) else x
    t = mix(uni(-3, 3), uni(-90, 90), uni(-720, 720))(s, dt)
    t0 = t[0] if isinstance(t, list) else t
    from sf import fin
    return [x, fin(t0 / x0, dt) if x0 else 1.0]


F = [Fn("logistic", u.logistic, args(XS), lgs, lambda v, E, x: E * abs(v) * 4 + ((abs(v)) if x < -LOW(E) else 0)),
     Fn("logistic_deriv", u.logistic_deriv, args(XS), lgd, lambda v, E, x: E * abs(v) * 6 + (abs(v) if abs(x) > LOW(E) else 0)),
     Fn("log_logistic", u.log_logistic, args(XS), llog, REL(4)),
     Fn("swish", u.swish, sw_pts, swish, sw_budget),
     Fn("hyperbolic_ramp", u.hyperbolic_ramp, ramp_pts, hyp, hyp_budget),
     Fn("exponential_ramp", u.exponential_ramp, ramp_pts, erp, er_budget)]


def LOW(E):
    return {24: 87, 53: 708, 64: 11355}[int(1 - mp.log(E, 2))]


def facets(tier):
    rows = []
    for n, lo, mid, hi in [("logistic", 0, .5, 1), ("logistic_deriv", 0, .25, 0), ("log_logistic", -INF, None, 0)]:
        f = getattr(u, n)
        rows += [(n, f, "fdg", [-INF], lo), (n, f, "fdg", [INF], hi), (n, f, "fdg", [NAN], NAN)]
        if mid is not None:
            rows.append((n, f, "fdg", [0.0], mid))
    rows += [("swish", u.swish, "fdg", a, e) for a, e in
             [([0.0, 1.0], 0.0), ([INF, 1.0], INF), ([-INF, 1.0], 0.0), ([INF, -1.0], 0.0), ([-INF, -2.0], -INF), ([3.0, 0.0], 1.5),
              ([NAN, 1.0], NAN)]]
    for n in ("hyperbolic_ramp", "exponential_ramp"):
        f = getattr(u, n)
        rows += [(n, f, "fdg", a, e) for a, e in
                 [([0.0, 1.0], 1.0), ([0.0, 3.5], 3.5), ([INF, 1.0], INF), ([-INF, 1.0], 0.0), ([INF, 2.5], INF), ([2.0, 0.0], 2.0),
                  ([-2.0, 0.0], 0.0), ([1.0, -1.0], NAN), ([NAN, 1.0], NAN), ([0.0, 0.0], 0.0), ([INF, 0.0], INF), ([-INF, 0.0], 0.0)]]
    return [points_facet(F, 9000, 300000), special_facet("special", rows)] + longf.ufacets("P13")
