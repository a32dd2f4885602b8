"""Complex log1p against exact rational / mpmath evaluation."""
import math
from fractions import Fraction
import numpy as np
from mpmath import mp, mpf
import ufunclab as u
import mpx
import sf
import longf
from core import Facet, Violation, call
from gen import src
from sf import uni, near, logu, mix, ints, just, fin

TECHNIQUE = "log(1+z) from the exact rational 2x + x^2 + y^2 evaluated with mpmath"
NOTE = ("Points on and near the circle |1+z| = 1 at all distances, near 0, -1, -2 and the branch cut, and over "
        "all magnitudes.")

CH = {"f": "F", "d": "D"}


def circle(s, dt):
    """z with |1+z| near 1"""
    k = s.byte() % 4
    if k == 0:      # near the origin: x ~ -y^2/2
        y = math.ldexp(1 + s.bits(4) / 2 ** 32, -s.rng(1, 40 if dt == "f" else 120)) * (1 - 2 * (s.byte() & 1))
        y = fin(y, dt)
        x = -y * y / 2 if s.byte() & 1 else -y * y / (1 + math.sqrt(1 - y * y)) if abs(y) < 1 else -1.0
    else:
        t = 2 * math.pi * s.bits(7) / 2 ** 56
        x, y = math.cos(t) - 1, math.sin(t)
        if k == 2:
            r = 1 + math.ldexp(1 + s.bits(2) / 65536, -s.rng(2, 55)) * (1 - 2 * (s.byte() & 1))
            x, y = r * math.cos(t) - 1, r * math.sin(t)
    x = fin(x, dt)
    for _ in range(s.byte() % 3):
        x = float(np.nextafter(np.dtype(dt).type(x), np.dtype(dt).type(1 if s.byte() & 1 else -9)))
    return [x, fin(y, dt)]


def grid(s, dt):
    f = mix(uni(-3, 1), uni(-1.3, 1.3), near(0, -1, -2, -2.2, 0.2, 1.2, -1.2), logu(-80, 0, 0), logu("min", "max", 0),
            just(0.0, -1.0, -2.0, 1.0))
    return [f(s, dt), f(s, dt)]


def case(dt):
    return src(lambda s: {"dt": dt, "z": [(circle if s.byte() % 3 else grid)(s, dt) for _ in range(16)]}, 700)


def exact(x, y):
    X, Y = Fraction(x), Fraction(y)
    q = 2 * X + X * X + Y * Y
    if q < Fraction(-1, 2):
        m = q + 1
        re = mp.log(mpf(m.numerator) / mpf(m.denominator)) / 2 if m else mp.ninf
    else:
        v = mpf(q.numerator) / mpf(q.denominator)
        if abs(v) < mpf(2) ** -100:
            re = v / 2
        else:
            with mp.workprec(300):
                re = mp.log1p(v) / 2
    X1 = X + 1
    im = mp.atan2(mpf(y), mpf(X1.numerator) / mpf(X1.denominator))
    if y == 0 and math.copysign(1, y) < 0 and X1 < 0:
        im = -mp.pi
    return re, im


def err(name, dt, g, e, bud, z):
    if mp.isinf(e) or mp.isinf(mpf(float(g))) or g != g:
        r = mpf(0) if mpf(float(g)) == e else mp.inf
    else:
        r = abs(mpx.tomp(g) - e) / bud
    if sf.TUNE:
        k = (name, dt)
        if r > sf.STAT.get(k, (0,))[0]:
            sf.STAT[k] = (float(r), z, float(e), float(g))
        return 0
    return r


def body(c):
    dt = c["dt"]
    z = np.array([complex(a, b) for a, b in c["z"]], dtype=CH[dt])
    E = mpx.eps(dt)
    tiny = mpf(2) ** sf.TINY[dt] * 4 * E
    dd = call(u.log1p_doubledouble, z)
    t4 = call(u.log1p_theorem4, z)
    ddc = call(u.log1p_doubledouble, z.conj())
    t4c = call(u.log1p_theorem4, z.conj())
    if dd.dtype != z.dtype or t4.dtype != z.dtype:
        raise Violation(f"result dtypes {dd.dtype}, {t4.dtype} for {z.dtype}")
    lab = 0
    for i in range(len(z)):
        x, y = float(z[i].real), float(z[i].imag)
        re, im = exact(x, y)
        X1 = 1 + x
        # the real part is accurate unless 2x + x^2 + y^2 cancels beyond double-double
        # (double for complex64) precision
        q = abs(2 * mpf(x)) + mpf(x) ** 2 + mpf(y) ** 2
        b_re = 4 * E * abs(re) + tiny + q * (mpf(2) ** -98 if dt == "d" else mpf(2) ** -49)
        # hypot(1 + x, y) with the rounded 1 + x, away from the circle
        if abs(re) > mpf("0.1"):
            b_re += 3 * E
        # |1+z| itself tiny: only as good as the rounding of 1 + x
        b_im = 4 * E * abs(im) + tiny
        m = max(abs(re), abs(im)) if not mp.isinf(re) else mpf(1)
        for nm, g in (("log1p_doubledouble", dd), ("conjugate of log1p_doubledouble", ddc.conj())):
            r1 = err(nm + ".re", dt, g[i].real, re, b_re, (x, y))
            r2 = err(nm + ".im", dt, g[i].imag, im, b_im, (x, y))
            if not (r1 <= 1 and r2 <= 1):
                raise Violation(f"{nm}({z[i]!r}) = {g[i]!r}, exact ({mp.nstr(re, 20)}, {mp.nstr(im, 20)}): "
                                f"{float(r1):.3g}, {float(r2):.3g} times the budget",
                                case={"dt": dt, "z": [c["z"][i]]})
        # theorem 4 uses complex multiplication: relative to the magnitude
        if max(abs(x), abs(y)) < float(mpf(2) ** (sf.MAXE[dt] - 2)):
            for nm, g in (("log1p_theorem4", t4), ("conjugate of log1p_theorem4", t4c.conj())):
                b = 12 * E * m + tiny
                r1 = err(nm + ".re", dt, g[i].real, re, b, (x, y))
                r2 = err(nm + ".im", dt, g[i].imag, im, b, (x, y))
                if not (r1 <= 1 and r2 <= 1):
                    raise Violation(f"{nm}({z[i]!r}) = {g[i]!r}, exact ({mp.nstr(re, 20)}, {mp.nstr(im, 20)}): "
                                    f"{float(r1):.3g}, {float(r2):.3g} times the budget",
                                    case={"dt": dt, "z": [c["z"][i]]})
    return "batch " + dt


def facets(tier):
    return [Facet("accuracy", [case("d"), case("f"), case("d")], body, 9000, 300000, evals=lambda c: 2 * len(c["z"]),
                  rule="every batch: points on the unit circle around -1, near its special points, or at any magnitude")] + longf.ufacets("P10")
