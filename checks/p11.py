"""pow1pm1, hypot3, abs_squared and abssq."""
import numpy as np
from mpmath import mp, mpf
import ufunclab as u
import mpx
import longf
from core import Facet, Violation, call
from arr import mk
from gen import src
from sf import (Fn, points_facet, special_facet, logu, uni, near, ints, mix, args, just, sgn, fin, REL, NAN, INF)

TECHNIQUE = "exact rational and mpmath evaluation, plus symmetry relations between calls"
NOTE = ("All magnitudes up to overflow and down to the smallest normals for hypot3; pow1pm1 near x = -1, 0, "
        "y = 0 and for results from 1e-300 to overflow.")


def p1(x, y):
    if x < -1:
        return "nan" if y != mp.floor(y) else None
    if x == -1:
        return mpf(0) if y == 0 else (mpf(-1) if y > 0 else "inf")
    if y == 0 or x == 0:
        return mpf(0)
    L = mp.log1p(x) if abs(x) > mpf(2) ** -60 else x - x * x / 2
    t = y * L
    if abs(t) > 20000:
        return mpf(10) ** 9000 if t > 0 else mpf(-1)
    return mp.expm1(t)


def p1_budget(v, E, x, y):
    if x == -1 or v == 0:
        return 0
    L = mp.log1p(x) if abs(x) > mpf(2) ** -60 else x
    t = abs(y * L)
    # y*log1p(x) rounded, then expm1: relative error t*exp(t)/expm1(t) times the rounding of t;
    # a product below the normal range has an absolute error instead
    lost = mpf(2) ** {24: -148, 53: -1073, 64: -16444}[int(1 - mp.log(E, 2))] if t < mpf(2) ** -120 else 0
    return E * (4 * abs(v) + 3 * t * (1 + v if v > -1 else 0)) + lost * 2


def hyp(x, y, z):
    return mp.sqrt(x * x + y * y + z * z)


def hargs(s, dt):
    k = s.byte() % 3
    if k == 0:
        f = sgn(mix(logu("min", "max"), just(0.0)))
        return [f(s, dt) for _ in range(3)]
    if k == 1:      # comparable magnitudes anywhere in the range
        lo, hi = {"f": (-124, 125), "d": (-1020, 1021), "g": (-990, 990)}[dt]
        e = s.rng(lo, hi)
        f = sgn(logu(e, e + 3))
        return [f(s, dt) for _ in range(3)]
    f = sgn(mix(uni(0, 10), ints(0, 40), logu(-30, 30)))
    return [f(s, dt) for _ in range(3)]


XS = mix(uni(-1, 1), uni(-1, 10), near(0, lo=1), near(-1, lo=1), logu("min", 0, 0), logu(0, "max"), just(-1.0, 0.0))
YS = mix(uni(-5, 5), ints(-20, 20, 2), logu("min", 10, 0), uni(-300, 300), logu(0, 60, 0), near(1, -1, 0.5), just(0.0, 1.0, -1.0))
F = [Fn("pow1pm1", u.pow1pm1, lambda s, dt: _clip(XS(s, dt), YS(s, dt)), p1, p1_budget, npts=16),
     Fn("hypot3", u.hypot3, hargs, hyp, REL(3), npts=16),
     Fn("abs_squared", u.abs_squared, args(sgn(mix(logu(-60, 60), logu("min", "max"), uni(0, 9)))),
        lambda x: x * x, REL(0.5001), npts=10),
     Fn("abssq", u.abssq, args(sgn(mix(logu(-60, 60), logu("min", "max"), uni(0, 9)))),
        lambda x: x * x, REL(0.5001), npts=10)]


def _clip(x, y):
    return [-1.0 if isinstance(x, float) and x < -1 else x, y]


# ---------------------------------------------------------------- complex squares and relations
def zcase(ch):
    real = {"F": "f", "D": "d", "G": "g"}[ch]
    f = sgn(mix(logu(-30, 30), uni(0, 9), logu("min", "max"), just(0.0, INF)))

    def one(s):
        v = f(s, real)
        return v[0] if isinstance(v, list) else float(v) if not isinstance(v, str) else 0.5
    return src(lambda s: {"dt": ch, "z": [[one(s), one(s)] for _ in range(12)]}, 600)


def zbody(c):
    ch = c["dt"]
    real = {"F": "f", "D": "d", "G": "g"}[ch]
    z = np.zeros(len(c["z"]), dtype=ch)
    z.real = np.array([p[0] for p in c["z"]], dtype=real)
    z.imag = np.array([p[1] for p in c["z"]], dtype=real)
    E = mpx.eps(real)
    sub = mpf(2) ** (mpx.FI[real][1])
    outs = {n: call(getattr(u, n), z) for n in ("abs_squared", "abssq")}
    for n, o in outs.items():
        if o.dtype != np.dtype(real):
            raise Violation(f"{n} gives {o.dtype} for {z.dtype}")
        for i in range(len(z)):
            re, im = mpx.tomp(z[i].real), mpx.tomp(z[i].imag)
            if mp.isinf(re) or mp.isinf(im):
                if not np.isposinf(o[i]):
                    raise Violation(f"{n}({z[i]!r}) = {o[i]!r}, expected inf")
                continue
            v = re * re + im * im
            if v > mpx.FI[real][2] * (1 - 4 * E):
                ok = np.isinf(o[i]) or v < mpx.FI[real][2] * (1 + 4 * E)
            else:
                ok = abs(mpx.tomp(o[i]) - v) <= mpf("1.6") * E * v + 3 * sub
            if not ok:
                raise Violation(f"{n}({z[i]!r}) = {o[i]!s}, exact {mp.nstr(v, 22)}",
                                case={"dt": ch, "z": [c["z"][i]]})
    return "complex " + ch


def relcase(s):
    dt = s.pick("dfg")
    f = sgn(mix(logu("min", "max"), uni(0, 9), just(0.0, INF, NAN)))
    return {"dt": dt, "p": [[f(s, dt) for _ in range(3)] for _ in range(10)]}


def relbody(c):
    import itertools
    dt = c["dt"]
    p = np.array([list(mk(q, dt, (3,))) for q in c["p"]], dtype=dt)
    base = call(u.hypot3, p[:, 0], p[:, 1], p[:, 2])
    E = np.finfo(dt).eps
    for per in itertools.permutations(range(3)):
        for sg in ((1, 1, -1), (-1, 1, 1), (-1, -1, -1)):
            q = p[:, per] * np.array(sg, dtype=dt)
            g = call(u.hypot3, q[:, 0], q[:, 1], q[:, 2])
            same = (g == base) | (np.isnan(g) & np.isnan(base)) | (abs(g - base) <= 2 * E * base)
            if not same.all():
                i = int(np.argmin(same))
                raise Violation(f"hypot3 of {p[i]!r} is {base[i]!r}, of its rearrangement {q[i]!r} it is {g[i]!r}",
                                case={"dt": dt, "p": [c["p"][i]]})
    anyinf = np.isinf(p).any(axis=1)
    anynan = np.isnan(p).any(axis=1)
    if not (np.isposinf(base[anyinf]).all() and np.isnan(base[anynan & ~anyinf]).all()):
        raise Violation(f"hypot3 with inf or nan arguments: {p!r} -> {base!r}")
    if not (base[~anynan] >= np.abs(p[~anynan]).max(axis=1, initial=0) * (1 - 2 * E)).all():
        raise Violation(f"hypot3 smaller than an argument: {p!r} -> {base!r}")
    for n in ("abs_squared", "abssq"):
        x = p[:, 0]
        r = call(getattr(u, n), x)
        with np.errstate(all="ignore"):
            w = x * x
        if not ((r == w) | (np.isnan(r) & np.isnan(w))).all():
            raise Violation(f"{n}({x!r}) = {r!r}, expected x*x = {w!r}")
    return "inf" if anyinf.any() else "finite"


def facets(tier):
    rows = [("pow1pm1", u.pow1pm1, "fdg", a, e) for a, e in
            [([-1.0, 0.0], 0.0), ([-1.0, 2.0], -1.0), ([-1.0, 0.5], -1.0), ([-1.0, -1.0], INF), ([0.0, 7.0], 0.0),
             ([0.0, -3.5], 0.0), ([3.0, 0.0], 0.0), ([1.0, 1.0], 1.0), ([NAN, 2.0], NAN), ([2.0, NAN], NAN),
             ([INF, 2.0], INF), ([INF, -2.0], -1.0)]]
    rows += [("hypot3", u.hypot3, "fdg", a, e) for a, e in
             [([3.0, 4.0, 0.0], 5.0), ([INF, NAN, 0.0], INF), ([NAN, -INF, 0.0], INF),
              ([0.0, NAN, INF], INF), ([0.0, NAN, 0.0], NAN), ([0.0, 0.0, 0.0], 0.0)]]
    return [points_facet(F, 9000, 300000),
            Facet("complex squares", [zcase(c) for c in "FDG"], zbody, 3000, 100000, rule="every batch",
                  evals=lambda c: 2 * len(c["z"])),
            Facet("relations", src(relcase, 500), relbody, 3000, 100000, evals=lambda c: 18 * len(c["p"]),
                  rule="every batch: permutations and sign changes of the arguments"),
            special_facet("special", rows)] + longf.ufacets("P11")
