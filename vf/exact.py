"""Exact rational values of NumPy scalars, error bounds, and magnitude-structured samplers."""
import math
from fractions import Fraction
import numpy as np

EPS = {"e": 2.0 ** -10, "f": 2.0 ** -23, "d": 2.0 ** -52, "g": 2.0 ** -63}
TINYF = {"f": Fraction(1, 2 ** 149), "d": Fraction(1, 2 ** 1074), "g": Fraction(1, 2 ** 16445)}
MAXF = {"f": Fraction(float(np.finfo("f").max)), "d": Fraction(float(np.finfo("d").max)),
        "g": (Fraction(2) - Fraction(1, 2 ** 63)) * Fraction(2) ** 16383}


def fr(x):
    """Exact Fraction of a finite NumPy or Python real scalar."""
    if isinstance(x, np.longdouble):
        m, e = np.frexp(x)
        hi = float(m)
        v = Fraction(hi) + Fraction(float(m - np.longdouble(hi)))
        e = int(e)
        return v * Fraction(2) ** e
    if isinstance(x, (int, np.integer, np.bool_, bool)):
        return Fraction(int(x))
    return Fraction(float(x))


def frs(a):
    return [fr(v) for v in a]


def finite(x):
    return bool(np.isfinite(x))


def near(got, exact, bound, dt=None):
    """|got - exact| <= bound (Fractions; bound may be a float).  Overflow to the right infinity
    is accepted when the exact value is beyond the range of dt."""
    if not np.isfinite(got):
        if dt and got == got and abs(exact) >= MAXF[dt] * (1 - Fraction(1, 2 ** 20)):
            return (got > 0) == (exact > 0)
        return False
    b = bound if isinstance(bound, Fraction) else Fraction(bound)
    if dt:
        b += 2 * TINYF[dt]
    return abs(fr(got) - exact) <= b


# ------------------------------------------------------------------ samplers
def mags(s, dt, emax, sign=True, zero=True):
    """-> a generator of finite values with |v| < 2**emax: one of several families."""
    k = s.byte() % 7
    E = min(emax, {"f": 120, "d": 1000, "g": 1000}[dt])

    def one(lo, hi):
        def f():
            if zero and s.chance(1, 12):
                return 0.0
            m = 1 + s.bits(3) / 2.0 ** 24 if dt == "f" else 1 + s.bits(6) / 2.0 ** 48
            v = math.ldexp(m, s.rng(lo, hi - 1))
            if dt == "f":
                v = float(np.float32(v))
            if sign and s.byte() & 1:
                v = -v
            if dt == "g" and s.byte() & 1:
                return [v, math.ldexp(float(s.near0(1000)), math.frexp(v)[1] - 64)]
            return v
        return f
    if k == 0:
        return lambda: float(s.rng(0 if zero else 1, 9)) * (-1 if sign and s.byte() & 1 else 1)
    if k == 1:
        return lambda: (s.rng(0 if zero else 1, 400)) / 8 * (-1 if sign and s.byte() & 1 else 1)
    if k in (2, 3):
        return one(-4, min(E, 4))
    if k == 4:
        return one(-min(E, 60), min(E, 60))
    if k == 5:
        return one(-E, E)
    c = s.rng(1, 60000) * 1.0
    w = s.pick([1.0, 0.125, 2.0 ** -10])
    return lambda: c + s.near0(30) * w if sign else abs(c + s.near0(30) * w) + (0 if zero else w)


def rescale(s, c, *groups):
    """multiplies the values of the case under the keys of each group by a power of two, now and then"""
    for keys in groups:
        if s.chance(1, 6):
            e = s.pick([-70, -40, -20, 40, 60])

            def mul(v):
                return [mul(q) for q in v] if isinstance(v, list) else v * 2.0 ** e if isinstance(v, (int, float)) else v
            for k in keys:
                c[k] = mul(c[k])
    return c


def mode_name(dt, c):
    return dt + " " + c["sty"]["mode"]
