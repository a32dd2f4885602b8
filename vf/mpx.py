"""Exact and high-precision references (mpmath), and error measured in ulps."""
import mpmath
import numpy as np
from mpmath import mp, mpf

mp.prec = 160

FI = {"f": (24, -149, mpf(np.finfo(np.float32).max.item())),
      "d": (53, -1074, mpf(np.finfo(np.float64).max.item())),
      "e": (11, -24, mpf(65504)),
      "g": (64, -16445, (mpf(2) - mpf(2) ** -63) * mpf(2) ** 16383)}


def tomp(x):
    """Exact mpf of a NumPy/Python real scalar."""
    if isinstance(x, np.longdouble):
        if not np.isfinite(x):
            return mpf(float(x))
        m, e = np.frexp(x)
        hi = float(m)
        lo = float(m - np.longdouble(hi))
        return mp.ldexp(mpf(hi) + mpf(lo), int(e))
    return mpf(float(x))


def ulp_of(exact, dt):
    p, emin, _ = FI[dt]
    if exact == 0:
        return mp.ldexp(1, emin)
    _, e = mp.frexp(exact)
    return mp.ldexp(1, max(e - p, emin))


def ulps(got, exact, dt):
    """Error of `got` in units in the last place of the exact value (inf if wild)."""
    g = tomp(got)
    _, _, mx = FI[dt]
    if mp.isnan(exact) or mp.isnan(g):
        return 0.0 if mp.isnan(exact) and mp.isnan(g) else float("inf")
    if mp.isinf(exact):
        return 0.0 if g == exact else float("inf")
    if mp.isinf(g):
        # overflow is right when the exact value is (nearly) beyond the range
        if (g > 0) == (exact > 0) and abs(exact) > mx * (1 - mpf(2) ** -18):
            return 0.0
        return float("inf")
    if abs(exact) > mx and abs(g) == mx:
        return 0.0
    return float(abs(g - exact) / ulp_of(exact, dt))


def rnd(exact, dt):
    """Nearest value of type dt (as NumPy scalar)."""
    t = np.dtype(dt).type
    if mp.isnan(exact):
        return t("nan")
    if dt == "g":
        m, e = mp.frexp(exact)
        hi = float(m)
        lo = float(m - mpf(hi))
        return np.ldexp(np.longdouble(hi) + np.longdouble(lo), int(e))
    return t(float(exact))


def eps(dt):
    return mp.ldexp(1, 1 - FI[dt][0])
