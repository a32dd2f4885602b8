"""debye1 against series evaluated in mpmath."""
import longf
from mpmath import mp, mpf
import ufunclab as u
from sf import Fn, points_facet, special_facet, logu, uni, near, ints, mix, args, REL, NAN, INF

TECHNIQUE = "power and exponential series evaluated with mpmath at 160 bits"
NOTE = "Points over all 110 approximation cells, their borders, both signs, tiny and huge x."

_COEF = []


def _coefs():
    if not _COEF:
        k = 1
        while k < 60:
            _COEF.append(mp.bernoulli(2 * k) / ((2 * k + 1) * mp.factorial(2 * k)))
            k += 1
    return _COEF


def d1(x):
    if x < 0:
        return d1(-x) - x / 2
    if x == 0:
        return mpf(1)
    if x < 1:
        x2 = x * x
        p, t = mpf(1), mpf(0)
        for c in _coefs():
            p *= x2
            q = c * p
            t += q
            if abs(q) < mpf(2) ** -150:
                break
        return 1 - x / 4 + t
    # pi^2/6/x - log terms: int_0^x t/(e^t-1) dt = pi^2/6 - sum e^{-kx} (x/k + 1/k^2)
    s, k = mpf(0), 1
    e = mp.exp(-x) if x < 200 else mpf(0)
    q = e
    while q > mpf(2) ** -150:
        s += q * (x / k + mpf(1) / (k * k))
        q *= e
        k += 1
    return (mp.pi ** 2 / 6 - s) / x


F = [Fn("debye1", u.debye1,
        args(mix(uni(0, 10), uni(0, 20), uni(0, 42), uni(-42, 0), uni(-1, 1),
                 near(*[k / 5 for k in range(1, 101)], lo=3),
                 near(*range(20, 41), lo=3), logu(-60, 1, 0), logu(5, "max", 0),
                 logu("min", -40, 0))),
        d1, lambda v, E, x: abs(v) * (E * 2 + mpf(2) ** -46), dts="fd")]


def facets(tier):
    return [points_facet(F, 9000, 400000),
            special_facet("special", [("debye1", u.debye1, "fd", [0.0], 1.0),
                                      ("debye1", u.debye1, "fd", [-0.0], 1.0),
                                      ("debye1", u.debye1, "fd", [INF], 0.0),
                                      ("debye1", u.debye1, "fd", [NAN], NAN)])] + longf.ufacets("P09")
