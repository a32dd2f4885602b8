"""Log-gamma functions against mpmath."""
import numpy as np
from mpmath import mp, mpf
import ufunclab as u
import mpx
import sf
import longf
from core import Facet, Violation, call
from arr import mk, styled
from gen import src
from sf import (Fn, points_facet, special_facet, logu, uni, near, ints, mix, args, just, REL, NAN, INF)

TECHNIQUE = "mpmath log-gamma at 160 bits, error budget of a few rounding units"
NOTE = ("logfactorial over the whole table, its end and all magnitudes of int32/int64; loggamma1p around its "
        "zeros, branch points and pole; multivariate_logbeta of vectors of any length and scale.")


def lg1p(x):
    if x <= -1:
        return "nan"
    if abs(x) < mpf(2) ** -60:
        return -mp.euler * x + mp.zeta(2) / 2 * x * x
    with mp.workprec(240):
        return +mp.loggamma(1 + x)


def lg_budget(v, E, x):
    # close to x = 1 the implementation rounds 1 + x (x >= 0.9): absolute error there
    b = 24 * E * abs(v)
    if x > mpf("0.89"):
        b += E * 12
    if x < -0.24:
        # the pole: 1 + x is exact below -0.5, else rounded
        b += E * 4
    return b


F = [Fn("loggamma1p", u.loggamma1p,
        args(mix(uni(-1, 3), uni(-1, 30), near(0, lo=1), near(1), near(-1, lo=1), near(-0.25, 0.9),
                 logu(-1, "max"), logu("min", 0, 0), logu(0, 10), just(-1.0, -2.5, -1e300, -1.0000001))),
        lg1p, lg_budget, dts="fd")]


# ---------------------------------------------------------------- logfactorial
def lf_case(s):
    def one():
        k = s.byte() % 7
        if k == 0:
            return s.rng(0, 200)
        if k == 1:
            return s.rng(0, 130)
        if k == 2:
            return s.rng(0, 5000)
        if k == 3:
            return s.bits(8) >> s.rng(1, 63)
        if k == 4:
            return -(s.bits(8) >> s.rng(1, 63)) - 1
        if k == 6:
            return (s.rng(1, 5) << s.rng(0, 62)) + s.pick([0, 0, -1, 1])
        return s.pick([0, 1, 2, 125, 126, 127, 2 ** 31 - 1, 2 ** 63 - 1, -2 ** 63, -1, -2 ** 31])
    return {"n": [one() for _ in range(24)], "dt": s.pick("li")}


def lf_body(c):
    ns = [max(-2 ** 63, min(n, 2 ** 63 - 1)) if c["dt"] == "l" else max(-2 ** 31, min(n, 2 ** 31 - 1)) for n in c["n"]]
    got = call(u.logfactorial, np.array(ns, dtype=c["dt"]))
    if got.dtype != np.float64:
        raise Violation(f"logfactorial gives {got.dtype}")
    for n, g in zip(ns, got):
        if n < 0:
            ok, e = np.isnan(g), "nan"
        else:
            e = mp.loggamma(mpf(n) + 1)
            er = mpx.ulps(g, e, "d")
            if sf.TUNE:
                k = ("logfactorial", c["dt"])
                if er > sf.STAT.get(k, (0,))[0]:
                    sf.STAT[k] = (er, n)
            ok = er <= 6
        if not ok:
            raise Violation(f"logfactorial({n}) [{c['dt']}] = {g!r}, exact {e}", case=dict(c, n=[n]))
    return "batch"


# ---------------------------------------------------------------- multivariate_logbeta
def mlb_case(dt):
    small = mix(uni(0, 4), logu(-8, 8), ints(1, 40, 2), near(1, 2), logu(-30, 60), logu(-100, 0))

    def f(s):
        n = s.rng(1, 9)
        return {"dt": dt, "sty": s.style(),
                "x": [[_pos(small(s, dt)) for _ in range(n)] for _ in range(s.rng(1, 3))]}
    return src(f, 400)


def _pos(v):
    if isinstance(v, list):
        return v if v[0] > 0 else [1.5, 0.0]
    return v if v > 0 else 1.5


def mlb_body(c):
    dt = c["dt"]
    x = mk(c["x"], dt, (len(c["x"]), len(c["x"][0])))
    got = styled(u.multivariate_logbeta, [x], c["sty"], outdt=dt)[0]
    E = mpx.eps(dt)
    for b in range(len(x)):
        xs = [mpx.tomp(t) for t in x[b]]
        lgs = [mp.loggamma(t) for t in xs]
        S = mp.fsum(xs)
        lS = mp.loggamma(S)
        v = mp.fsum(lgs) - lS
        n = len(xs)
        scale = mp.fsum([abs(t) for t in lgs]) + abs(lS)
        bud = E / 2 * (4 * scale + n * (scale + 1)) + n * E / 2 * S * (abs(mp.digamma(S)) + 1) + n * E
        if scale > mpx.FI[dt][2] / 8:
            continue
        r = abs(mpx.tomp(got[b]) - v) / bud
        if sf.TUNE:
            k = ("mlb", dt)
            if r > sf.STAT.get(k, (0,))[0]:
                sf.STAT[k] = (float(r), [float(t) for t in xs], float(v), float(got[b]))
        if not r <= 1:
            raise Violation(f"multivariate_logbeta[{dt}]({[str(t) for t in x[b]]}) = {got[b]!s}, "
                            f"exact {mp.nstr(v, 22)} ({float(r):.3g} times the budget)")
    return "n=%d" % min(x.shape[1], 4)


def facets(tier):
    return [points_facet(F, 8000, 300000),
            Facet("logfactorial", src(lf_case), lf_body, 4000, 200000, rule="every batch",
                  evals=lambda c: len(c["n"])),
            Facet("logfactorial table", [{"n": list(range(k, k + 32)), "dt": d} for d in "li"
                                         for k in range(0, 320, 32)], lf_body, 0, 0,
                  rule="every integer from 0 to 319, both types", enum=True,
                  evals=lambda c: len(c["n"])),
            Facet("multivariate_logbeta", [mlb_case(d) for d in "fdg"], mlb_body, 9000, 300000,
                  rule="every case: positive vectors of length 1 to 9 in any layout"),
            special_facet("special", [("loggamma1p", u.loggamma1p, "fd", [x], e) for x, e in
                                      [(0.0, 0.0), (1.0, 0.0), (INF, INF), (-1.0, NAN), (-INF, NAN),
                                       (NAN, NAN), (-1.5, NAN), (-2.0, NAN)]])] + longf.facets("P07") + longf.ufacets("P07")
