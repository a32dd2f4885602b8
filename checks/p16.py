"""Semivariogram models."""
import numpy as np
from mpmath import mp, mpf
import ufunclab as u
import mpx
import longf
from core import Facet, Violation, call
from arr import mk
from gen import src
from p15 import num, out, between
from sf import Fn, points_facet, special_facet, logu, uni, near, ints, mix, args, just, REL, NAN, INF, tiny

TECHNIQUE = "the documented variogram formulas in mpmath, plus continuity and monotonicity relations"
NOTE = "h at, around, below and beyond the range; nugget, sill (either order) and range of all magnitudes up to 2**30."
P = mix(uni(0, 3), logu(-30, 30), ints(0, 12, 4), just(0.0, 1.0))
PP = mix(uni(0.1, 3), logu(-30, 30), ints(1, 12, 4), just(1.0))


def pts(s, dt):
    r = num(PP(s, dt), dt)
    T = np.dtype(dt).type
    k = s.byte() % 3
    if k:
        h = abs(between(s, T(0), r, dt))
    else:
        h = num(P(s, dt), dt)
    n = num(P(s, dt), dt)
    sill = n + num(P(s, dt), dt) if s.byte() % 8 else num(P(s, dt), dt)
    return [out(h, dt), out(n, dt), out(sill, dt), out(r, dt)]


def expo(h, n, s, r):
    return n + (s - n) * (-mp.expm1(-3 * h / r)) if h else n


def bounded(f):
    def g(h, n, s, r):
        if h > r:
            return s
        with mp.workprec(400):
            return n + (s - n) * f(h / r)
    return g


def bud(v, E, h, n, s, r):
    return 8 * E * max(abs(n), abs(s))


def bud0(v, E, h, n, s, r):
    # relative to the distance from the nugget, when that is the larger part
    return 0 if h > r or (h == 0) else min(bud(v, E, h, n, s, r), E * (4 * abs(n) + 16 * abs(v - n))) + 4 * abs(s - n) * tiny(E)


SC = [[0, 3], [1, 2]]
F = [Fn("exponential", u.semivar.exponential, pts, expo, bud, scale=SC),
     Fn("linear", u.semivar.linear, pts, bounded(lambda t: t), bud0, scale=SC),
     Fn("spherical", u.semivar.spherical, pts, bounded(lambda t: t * (3 - t * t) / 2), bud0, scale=SC),
     Fn("parabolic", u.semivar.parabolic, pts, bounded(lambda t: t * (2 - t)), bud0, scale=SC)]


def mono_case(s):
    dt = s.pick("dfg")
    r = num(PP(s, dt), dt)
    T = np.dtype(dt).type
    n = num(P(s, dt), dt)
    return {"dt": dt, "r": out(r, dt), "n": out(n, dt), "s": out(n + num(P(s, dt), dt), dt),
            "h": [out(abs(between(s, T(0), r, dt)), dt) for _ in range(24)]}


def mono_body(c):
    dt = c["dt"]
    h = np.sort(mk(c["h"], dt, (len(c["h"]),)))
    n, s, r = [num(c[k], dt) for k in "nsr"]
    slack = 10 * np.finfo(dt).eps * max(abs(n), abs(s))
    for f in ("exponential", "linear", "spherical", "parabolic"):
        y = call(getattr(u.semivar, f), h, n, s, r)
        if not (np.diff(y) >= -slack).all() or not ((y >= n - slack) & (y <= s + slack)).all():
            raise Violation(f"semivar.{f}({h!r}, {n!s}, {s!s}, {r!s}) = {y!r}: decreasing, or outside [nugget, sill]")
        T = np.dtype(dt).type
        e = call(getattr(u.semivar, f), np.array([r, np.nextafter(r, T(INF)), T(0)]), n, s, r)
        if f != "exponential" and not (abs(e[0] - s) <= slack and e[1] == s):
            raise Violation(f"semivar.{f} at and just beyond the range {r!s} (nugget {n!s}, sill {s!s}): {e!r}")
        if not abs(e[2] - n) <= slack:
            raise Violation(f"semivar.{f}(0, {n!s}, {s!s}, {r!s}) = {e[2]!s}")
    return "monotone"


def facets(tier):
    return [points_facet(F, 9000, 300000),
            Facet("monotone", src(mono_case, 900), mono_body, 4000, 150000, evals=lambda c: 4 * len(c["h"]),
                  rule="every batch: sorted h")] + longf.ufacets("P16")
