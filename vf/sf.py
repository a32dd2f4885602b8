"""Accuracy of element-wise functions against mpmath.

A case is {"fn", "dt", "xs": [[arguments], ...]}: a batch of points, evaluated
in one vectorised call; a point outside its error budget is re-raised alone.
The budget is an absolute error, computed in mpmath from the exact value and
the conditioning of the function at that point.
"""
import math
import os
import numpy as np
from mpmath import mp, mpf
from core import Facet, Violation, call
import gen
from gen import src, NAN, INF
from arr import mk, scal
import mpx

STAT = {}                   # (fn, dt) -> (largest error/budget, point): for tuning only
TUNE = bool(os.environ.get("VF_TUNE"))
MAXE = {"f": 127, "d": 1023, "g": 16380}
MINE = {"f": -126, "d": -1022, "g": -16380}
TINY = {"f": -126, "d": -1022, "g": -16382}     # smallest normal


# ---------------------------------------------------------------- point samplers
# each takes (s, dt) and returns a Python float, or for 'g' [hi, lo] or a decimal string

def fin(v, dt, s=None):
    if dt == "f":
        with np.errstate(all="ignore"):
            return float(np.float32(v))
    if dt == "g" and s is not None and v and math.isfinite(v) and 1e-250 < abs(v) < 1e250 \
            and s.byte() & 1:
        return [v, math.ldexp(float(s.rng(0, 2000) - 1000), math.frexp(v)[1] - 64)]
    return v


def at_literal(s, dt, ok):
    """sometimes: a constant of the sources, or a number next to it, if `ok` accepts it"""
    if gen.FLTS and s.byte() % 6 == 5:
        v = fin(gen.beside(s, s.pick(gen.FLTS)), dt)
        if ok(v):
            return v
    return None


def logu(lo, hi, sign=1):
    """log-uniform magnitude in [2**lo, 2**hi); lo/hi 'min'/'max' mean the range of the type."""
    def f(s, dt):
        v = at_literal(s, dt, lambda v: v and (not sign or v * sign > 0) and (lo == "min" or abs(v) >= 2.0 ** max(lo, -1000)) and (hi == "max" or abs(v) < 2.0 ** min(hi, 1000)))
        if v is not None:
            return v
        a = MINE[dt] if lo == "min" else max(lo, MINE[dt] - 20)
        b = MAXE[dt] if hi == "max" else min(hi, MAXE[dt])
        e = s.rng(a, b - 1)
        m = 1 + s.bits(6) / 2.0 ** 48
        sg = sign if sign else (1 if s.byte() & 1 else -1)
        if dt == "g" and not -1000 < e < 1000:
            return np.format_float_scientific(np.ldexp(np.longdouble(sg * m), e), unique=True)
        return fin(sg * math.ldexp(m, e), dt, s)
    return f


def uni(a, b):
    def f(s, dt):
        v = at_literal(s, dt, lambda v: a <= v <= b)
        if v is not None:
            return v
        return fin(a + (b - a) * (s.bits(7) / 2.0 ** 56), dt, s)
    return f


def near(*cs, lo=2, hi=60):
    """close to a given point, at all distances, both sides, and the point itself"""
    def f(s, dt):
        c = s.pick(cs)
        k = s.rng(lo, hi)
        if s.chance(1, 12):
            return fin(c, dt)
        d = math.ldexp(1 + s.bits(3) / 2.0 ** 24, -k) * (abs(c) or 1.0)
        return fin(c + (d if s.byte() & 1 else -d), dt, s)
    return f


def just(*cs):
    return lambda s, dt: fin(s.pick(cs), dt)


def ints(a, b, den=1):
    return lambda s, dt: fin(s.rng(a, b) / den, dt)


def mix(*fs):
    return lambda s, dt: s.pick(fs)(s, dt)


def sgn(f):
    def g(s, dt):
        v = f(s, dt)
        if s.byte() & 1:
            if isinstance(v, list):
                return [-v[0], -v[1]]
            if isinstance(v, str):
                return v[1:] if v.startswith("-") else "-" + v
            return -v
        return v
    return g


def args(*fs):
    return lambda s, dt: [f(s, dt) for f in fs]


# ---------------------------------------------------------------- functions

class Fn:
    """name; f: the ufunc; points(s, dt) -> list of argument values; exact(*mp) -> mpf or None;
    budget(exact, E, *mp) -> absolute error allowed, where E = machine epsilon of the type."""

    def __init__(self, name, f, points, exact, budget, dts="fdg", label=None, npts=16, weight=1,
                 clip=None, floor=None, scale=()):
        self.name, self.f, self.points, self.exact, self.budget = name, f, points, exact, budget
        self.dts, self.label, self.npts, self.weight = dts, label, npts, weight
        self.clip = clip
        self.scale = scale          # groups of arguments that may be scaled together by a power of two


def tiny(E):
    """smallest normal number of the type with epsilon E"""
    return mpf(2) ** {24: -126, 53: -1022, 64: -16382}[int(1 - mp.log(E, 2))]


REL = lambda k: (lambda v, E, *a: k * E * abs(v))


def over(v, got, dt):
    """got is the right answer to a value beyond the range of dt."""
    mx = mpx.FI[dt][2]
    return abs(v) > mx * (1 - mpf(2) ** -12) and mp.isinf(got) and (got > 0) == (v > 0)


def run_points(F, dt, cols, got):
    """-> index and message of the worst point outside its budget, or None"""
    E = mpx.eps(dt)
    sub = mpf(2) ** (TINY[dt] - mpx.FI[dt][0] + 1)
    bad = None
    for i in range(len(got)):
        a = [mpx.tomp(c[i]) for c in cols]
        v = F.exact(*a)
        if v is None:
            continue
        g = mpx.tomp(got[i])
        if isinstance(v, str):          # 'nan', 'inf', '-inf'
            w = mpf(v)
            if mp.isnan(w) and mp.isnan(g) or g == w:
                continue
            return i, v, g
        if mp.isnan(g):
            return i, v, g
        if over(v, g, dt):
            continue
        bud = F.budget(v, E, *a) + 2 * sub
        if mp.isinf(bud):
            continue
        if mp.isinf(g):
            return i, v, g
        r = abs(g - v) / bud
        if TUNE:
            k = (F.name, dt)
            if k not in STAT or r > STAT[k][0]:
                STAT[k] = (float(r), [float(x) for x in a], float(v), float(g))
            continue
        if r > 1 and (bad is None or r > bad[3]):
            bad = (i, v, g, r)
    return bad


def points_facet(fns, quick, thorough=None, name="accuracy"):
    table = {F.name: F for F in fns}
    strats = []
    for F in fns:
        for dt in F.dts:
            def points(s, F=F, dt=dt):
                xs = [F.points(s, dt) for _ in range(F.npts)]
                if F.scale and s.chance(1, 6):
                    g = s.pick(F.scale)
                    e = s.pick([-60, -40, 20, 50] if dt == "f" else [-500, -400, -100, 100, 400])
                    xs = [[([q * 2.0 ** e for q in v] if isinstance(v, list) else v * 2.0 ** e) if j in g else v for j, v in enumerate(p)] for p in xs]
                return {"fn": F.name, "dt": dt, "xs": xs}
            strats += [src(points, 1000)] * F.weight

    def body(c):
        F, dt = table[c["fn"]], c["dt"]
        cols = [mk([p[j] for p in c["xs"]], dt, (len(c["xs"]),)) for j in range(len(c["xs"][0]))]
        if "lay" in c:
            pass
        got = call(F.f, *cols)
        if got.dtype != np.dtype(dt) or got.shape != cols[0].shape:
            raise Violation(f"{F.name}: result {got.dtype}{got.shape} for {dt} input")
        bad = run_points(F, dt, cols, got)
        if bad:
            i = bad[0]
            raise Violation(f"{F.name}[{dt}]{tuple(str(q[i]) for q in cols)} = {got[i]!s}, the exact "
                            f"value is {mp.nstr(bad[1], 25) if not isinstance(bad[1], str) else bad[1]}"
                            + (f" (error {float(bad[3]):.3g} times the budget)" if len(bad) > 3 else ""),
                            case={"fn": c["fn"], "dt": dt, "xs": [c["xs"][i]]})
        return c["fn"] + " " + dt

    return Facet(name, strats, body, quick, thorough,
                 rule="every case: a batch of points of one function and dtype, spread over its "
                      "domain on log and linear scales and around its special points",
                 evals=lambda c: len(c["xs"]))


def special_facet(name, rows, dts=None):
    """rows: (label, ufunc, dtypes, arguments, expected) with exact expected values; enumerated."""
    cases = [{"row": i, "dt": dt, "what": str(r[0])} for i, r in enumerate(rows)
             for dt in (dts or r[2])]

    def body(c):
        lab, f, _, a, e = rows[c["row"]]
        xs = [scal(v, c["dt"]) if not isinstance(v, str) else np.longdouble(v) for v in a]
        xs = [np.array([v], dtype=c["dt"]) for v in xs]
        got = call(f, *xs)[0]
        want = np.dtype(c["dt"]).type(e)
        if not (got == want or (got != got and want != want)):
            raise Violation(f"{lab}[{c['dt']}]({a}) = {got!r}, expected {want!r}")
        return lab
    return Facet(name, cases, body, 0, 0, rule="every listed special value", enum=True)
