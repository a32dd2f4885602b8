"""Yeo-Johnson transformation and its inverse."""
import numpy as np
from mpmath import mp, mpf
import ufunclab as u
import mpx
import sf
import longf
from core import Facet, Violation, call
from arr import mk
from gen import src
from sf import (Fn, points_facet, special_facet, logu, uni, near, ints, mix, args, just, REL, NAN, INF, fin)

TECHNIQUE = "the transformation and its inverse in mpmath, monotonicity and the round trip"
NOTE = ("lambda at, near and far from 0, 1 and 2 (zero or normal numbers above 1e-300), x of all magnitudes and both signs; "
        "the inverse up to the edge of its domain.")


def l1p(t):
    return mp.log1p(t) if abs(t) > mpf(2) ** -70 else t - t * t / 2


def half(x, L):
    """the x >= 0 branch"""
    if L == 0:
        return l1p(x)
    t = L * l1p(x)
    if t > 40000:
        return mpf(10) ** 9000
    return mp.expm1(t) / L


def lost(t, E):
    """absolute error of a product that falls below the normal range"""
    k = {24: -126, 53: -1022, 64: -16382}[int(1 - mp.log(E, 2))]
    return mpf(2) ** (k + 2) * E if t < mpf(2) ** (k + 2) else mpf(0)


def yj(x, L):
    return half(x, L) if x >= 0 else -half(-x, 2 - L)


def yj_budget(v, E, x, L):
    if x < 0:
        x, L = -x, 2 - L
    t = abs(L * l1p(x))
    b = 4 * E * abs(v)
    if L != 0:
        e = mp.exp(L * l1p(x)) if L * l1p(x) < 40000 else mpf(10) ** 9000
        b += 3 * E * t * e / abs(L) + lost(t, E) / abs(L)
        mx = mpx.FI[{24: "f", 53: "d", 64: "g"}[int(1 - mp.log(E, 2))]][2]
        if e > mx * mpf("0.999"):
            b = mp.inf          # (1+x)**lambda itself overflows
    return b


def hinv(y, L):
    if L == 0:
        return mp.expm1(y) if y < 40000 else mpf(10) ** 9000
    w = 1 + L * y
    if w < 0:
        return "nan"
    if w == 0:
        return "inf"
    t = l1p(L * y) / L
    return mp.expm1(t) if t < 40000 else mpf(10) ** 9000


def inv(y, L):
    if y >= 0:
        r = hinv(y, L)
        e = edge(y, L)
        return None if e else r
    r = hinv(-y, 2 - L)
    if edge(-y, 2 - L):
        return None
    if isinstance(r, str):
        return {"nan": "nan", "inf": "-inf"}[r]
    return -r


def edge(y, L):
    """so close to the end of the domain that rounding decides"""
    return L < 0 and abs(1 + L * y) < mpf(2) ** -14


def inv_budget(v, E, y, L):
    if y < 0:
        y, L = -y, 2 - L
    b = 4 * E * abs(v)
    if L == 0:
        return b + E * abs(y) * (1 + abs(v))
    if abs(L * y) > mpx.FI[{24: "f", 53: "d", 64: "g"}[int(1 - mp.log(E, 2))]][2] * mpf("0.999"):
        return mp.inf           # lambda*x itself overflows
    w = 1 + L * y
    t = l1p(L * y) / L
    # error of log1p(L*y)/L: the rounding of L*y is amplified by 1/(1 + L*y)
    dt = E * (2 * abs(y) / w + 2 * abs(t))
    if dt * (1 + abs(v)) > abs(v) / 10:
        return abs(v) * 2 + dt * (1 + abs(v)) * 4       # ill-conditioned
    return b + 2 * dt * (1 + abs(v)) + lost(abs(L * y), E) / abs(L)


LAM = mix(uni(-3, 5), just(0.0, 1.0, 2.0, 0.5, -1.0, 3.0), near(0, 1, 2, lo=1, hi=70), uni(-40, 40), logu(-990, 0, 0), ints(-16, 24, 4))
X = mix(uni(-3, 3), uni(-60, 60), logu(-60, 10, 0), logu("min", "max", 0), just(0.0), near(0, 1, -1, lo=1))


def inv_pts(s, dt):
    L = LAM(s, dt)
    if s.byte() % 3 == 0:
        return [X(s, dt), L]
    # images of ordinary x: inside the domain
    x = mix(uni(-5, 5), logu(-30, 30, 0), uni(-100, 100))(s, dt)
    l0 = float(mk([L], dt, (1,))[0])
    x0 = float(mk([x], dt, (1,))[0])
    y = float(yj(mpf(x0), mpf(l0)))
    if not abs(y) < {"f": 1e37, "d": 1e300, "g": 1e300}[dt]:
        y = x0
    return [fin(y, dt, s), L]


def lamok(s, dt):
    v = LAM(s, dt)
    if dt == "f" and isinstance(v, float) and 0 < abs(v) < 1e-30:
        v = 1e-30 if v > 0 else -1e-30
        v = float(np.float32(v))
    return v


F = [Fn("yeo_johnson", u.yeo_johnson, lambda s, dt: [X(s, dt), lamok(s, dt)], yj, yj_budget),
     Fn("inv_yeo_johnson", u.inv_yeo_johnson, lambda s, dt: (lambda p: [p[0], clampf(p[1], dt)])(inv_pts(s, dt)), inv, inv_budget)]


def clampf(v, dt):
    if dt == "f" and isinstance(v, float) and 0 < abs(v) < 1e-30:
        return float(np.float32(1e-30 if v > 0 else -1e-30))
    return v


# ---------------------------------------------------------------- monotone and round trip
def rcase(s):
    dt = s.pick("dfg")
    L = mix(uni(-3, 5), just(0.0, 1.0, 2.0), near(0, 2, lo=1, hi=60))(s, dt)
    f = mix(uni(-4, 4), uni(-30, 30), near(0, lo=1, hi=30))
    return {"dt": dt, "L": clampf(L, dt), "x": [f(s, dt) for _ in range(20)]}


def rbody(c):
    dt = c["dt"]
    x = np.sort(mk(c["x"], dt, (len(c["x"]),)))
    L = mk([c["L"]], dt, (1,))[0]
    y = call(u.yeo_johnson, x, L)
    E = np.finfo(dt).eps
    d = np.diff(y)
    slack = 16 * E * np.maximum(np.abs(y[1:]), np.abs(y[:-1])) * (1 + np.abs(L) + 2) * 4
    if not (d >= -slack).all():
        i = int(np.argmax(~(d >= -slack)))
        raise Violation(f"yeo_johnson is not increasing: x={x[i]!s}, {x[i+1]!s}, lambda={L!s} -> {y[i]!s}, {y[i+1]!s}",
                        case={"dt": dt, "L": c["L"], "x": [v for v in c["x"]]})
    z = call(u.inv_yeo_johnson, y, L)
    n = 0
    for i in range(len(x)):
        xm, ym, Lm = mpx.tomp(x[i]), mpx.tomp(y[i]), mpx.tomp(L)
        a, l, yy = (xm, Lm, ym) if xm >= 0 else (-xm, 2 - Lm, -ym)
        w = 1 + l * yy
        if not w > mpf(2) ** -10:
            continue
        # dx/dy = (1+x)**(1-lambda), times the error of y, plus that of the inverse itself
        cond = (1 + a) ** (1 - l) * (abs(yy) * 6 + 3 * l1p(a) * w) + (1 + a) * (2 * abs(yy) / w + 3 * abs(l1p(a))) + a * 4
        b = mpf(float(E)) / 2 * cond + mpf(2) ** sf.TINY[dt]
        r = abs(mpx.tomp(z[i]) - xm) / b if not np.isnan(z[i]) and not np.isinf(z[i]) else mp.inf
        if sf.TUNE:
            k = ("roundtrip", dt)
            if r > sf.STAT.get(k, (0,))[0]:
                sf.STAT[k] = (float(r), float(x[i]), float(L), float(y[i]), float(z[i]))
            continue
        n += 1
        if not r <= 1:
            raise Violation(f"inv_yeo_johnson(yeo_johnson({x[i]!s}, {L!s}), {L!s}) = {z[i]!s} (y = {y[i]!s})",
                            case={"dt": dt, "L": c["L"], "x": [v for v in c["x"]]})
    return "round trip" if n else "monotone"


def facets(tier):
    rows = []
    for a, e in [([0.0, 0.0], 0.0), ([0.0, 2.0], 0.0), ([INF, 1.0], INF), ([-INF, 1.0], -INF),
                 ([INF, 0.0], INF), ([-INF, 2.0], -INF), ([NAN, 1.0], NAN), ([1.0, NAN], NAN), ([INF, -2.0], 0.5), ([-INF, 4.0], -0.5)]:
        rows.append(("yeo_johnson", u.yeo_johnson, "fdg", a, e))
    for a, e in [([0.0, 0.0], 0.0), ([0.0, 2.0], 0.0), ([INF, 1.0], INF), ([-INF, 1.0], -INF),
                 ([1.0, -1.0], INF), ([1.5, -1.0], NAN), ([0.5, -2.0], INF), ([0.51, -2.0], NAN), ([-1.0, 3.0], -INF), ([-1.25, 3.0], NAN),
                 ([-0.5, 4.0], -INF), ([NAN, 1.0], NAN), ([1.0, NAN], NAN)]:
        rows.append(("inv_yeo_johnson", u.inv_yeo_johnson, "fdg", a, e))
    return [points_facet(F, 8000, 300000),
            Facet("round trip", src(rcase, 500), rbody, 5000, 150000, evals=lambda c: 2 * len(c["x"]),
                  rule="every batch: sorted points of one lambda, transformed and transformed back"),
            special_facet("special", rows)] + longf.ufacets("P14")
