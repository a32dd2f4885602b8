"""gmean, hmean, pmean and weighted forms against mpmath."""
import numpy as np
import ufunclab as u
from mpmath import mp, mpf
import longf
from core import Facet, Violation, call
from arr import mk, styled, pl, lay
from gen import src, NAN, INF
from mpx import tomp, eps
from exact import mags

TECHNIQUE = "the definitions evaluated in mpmath, with an error budget from the conditioning, and metamorphic relations"
NOTE = ("Types f, d, g; p negative, zero, tiny, +-1 and next to it, +-inf, huge and ordinary; zeros, ties, infinities, zero and unit weights, "
        "negative x; magnitudes over half the exponent range; layouts and call styles.")
BIG = {"f": 50, "d": 400, "g": 900}


def pval(s, dt):
    k = s.byte() % 12
    if k < 4:
        return s.pick([1.0, 0.0, -1.0, 2.0, -2.0, 3.0, INF, -INF, -0.0, 0.5])
    if k < 7:
        return s.near0(80) / 8
    if k == 7:
        return s.near0(40) * 2.0 ** -24                    # around the switch to the small-p formula, 2e-6
    if k == 8:
        return s.near0(9) * 10.0 ** -s.rng(7, 30)
    if k == 9:
        return s.near0(99) * 1.0
    if k == 10:
        return s.near0(1000) / 4096
    if k == 11:
        return s.pick([1.0, -1.0, 2.0, -2.0, 3.0, 0.5]) + s.near0(9) * 2.0 ** -s.rng(5, 40)     # next to the special values
    return float(np.float32(s.near0(30000) / 1000))


def case(s, dt):
    n, B = s.rng(1, 9), s.rng(1, 2)
    rows, ws, ps = [], [], []
    for _ in range(B):
        k = s.byte() % 10
        el = mags(s, dt, BIG[dt], sign=False, zero=k < 2)
        r = [el() for _ in range(n)]
        if k == 9:
            r = [r[0]] * n
        if k == 8 and n > 1:
            r[s.below(n)] = INF
            if s.chance(1, 4):
                r[s.below(n)] = 0.0
        if k == 7:
            r[s.below(n)] = s.pick([-1.0, -1e-3, -INF, NAN, -5.0])
        rows.append(r)
        w = s.pick([lambda: 1.0, lambda: s.rng(1, 8) / 4, lambda: s.rng(0, 4) * 0.5, lambda: 1.0 + s.bits(2) / 7.0])
        w = [w() for _ in range(n)]
        if not sum(w):
            w[0] = 1.0
        ws.append([float(np.float32(v)) for v in w])
        p = pval(s, dt)
        ps.append(float(np.float32(p)) if dt == "f" else p)
    return {"dt": dt, "n": n, "sty": s.style(), "x": rows, "w": ws, "p": ps}


def exact_mean(xs, ws, p):
    """xs, ws, p: mpf (p may be infinite); xs nonnegative, possibly infinite.
    -> (value or None when undefined, relative error growth in units of eps, fraction)"""
    n, W = len(xs), sum(ws)
    if p == mp.inf:
        return max(xs)
    if p == -mp.inf:
        return min(xs)
    z, i = any(x == 0 for x in xs), any(mp.isinf(x) for x in xs)
    if p == 0:
        if z and i:
            return mp.nan
        return mp.inf if i else mpf(0) if z else mp.exp(sum(w * mp.log(x) for x, w in zip(xs, ws)) / W)
    if p > 0 and i:
        return mp.inf
    if p < 0 and z:
        return mpf(0)
    sc = max(xs) if p > 0 else min(xs)
    if mp.isinf(sc) or sc == 0:
        return sc
    t = sum(w * (x / sc) ** p for x, w in zip(xs, ws) if not mp.isinf(x)) / W
    return sc * t ** (1 / p)


def budget(xs, ws, p, E, n, v):
    """relative error allowed for finite positive data"""
    pos = [x for x in xs if x > 0 and not mp.isinf(x)]
    L = max([abs(mp.log(x)) for x in pos] + [1])
    if p in (mp.inf, -mp.inf):
        return mpf(0)
    near_switch = mpf(0)
    if mpf("1.99e-6") < abs(p) < mpf("2.01e-6"):        # either formula, as float32 rounds p
        near_switch = E * (2 * n + 2 * mp.log(n + 1) + 20) / abs(p)
    if abs(p) < mpf("2.01e-6"):
        s2 = L * L if p else 0
        sd = (mp.log(max(pos)) - mp.log(min(pos))) if pos else 0
        ap = abs(p)
        return near_switch + E * (n + 8) * (2 + L) + ap * (n + 8) * E * s2 * 4 + 2 * (ap * sd * sd) ** 2 + ap ** 2 * sd ** 3
    ap = abs(p)
    # sum of powers: relative error about (n + p) eps; then ** (1/p)
    return E * (2 * n + 12) * (1 + 1 / ap) + E * (2 * mp.log(n + 1) + 4) / ap * 2


def close(g, v, rel, dt):
    if mp.isnan(v):
        return g != g
    if g != g:
        return False
    g = tomp(g)
    lim = mpf(2) ** {"f": 127, "d": 1023, "g": 16383}[dt]
    if mp.isinf(v) or abs(v) > lim:
        return g == mp.inf
    if v < 1 / lim:
        return 0 <= g <= 4 / lim
    if mp.isinf(g):
        return False
    return abs(g - v) <= rel * abs(v)


def one(nm, f, dt, x, w, p, g, c):
    """the value g of f for row x"""
    E = eps(dt)
    xs = [tomp(v) if np.isfinite(v) else (mp.nan if v != v else mpf(float(v))) for v in x]
    ws = [tomp(v) for v in w]
    n = len(xs)
    if any(mp.isnan(a) or a < 0 for a in xs):
        if nm in ("pmean", "pmeanw") and g == g:
            raise Violation(f"{nm}[{dt}]({pl(x)}, {pl(w)}, p={p!s}) = {g!s}, expected nan")
        return ""
    P = tomp(p) if np.isfinite(p) else mpf(float(p))
    z, i = any(a == 0 for a in xs), any(mp.isinf(a) for a in xs)
    if nm[-1] == "w" and any(a == 0 for a in ws):
        # a zero weight drops the element; with a zero or infinity the result is not specified
        if z or i or P in (mp.inf, -mp.inf):
            return ""
        keep = [k for k in range(n) if ws[k]]
        kx, kw = [xs[k] for k in keep], [ws[k] for k in keep]
        if P and abs(P) > mpf("2e-6"):
            sc = max(xs) if P > 0 else min(xs)
            if sum(b * (a / sc) ** P for a, b in zip(kx, kw)) < mpf("1e-25"):
                return ""
    else:
        kx, kw = xs, ws
    if P and abs(P) > mpf("2e-6") and P not in (mp.inf, -mp.inf) and not z and not i:
        # the scaled ratios have to be representable
        r = max(xs) / min(xs)
        if mp.log(r, 2) > {"f": 100, "d": 900, "g": 10000}[dt]:
            return ""
    v = exact_mean(kx, kw, P)
    if P and abs(P) < mpf("2.01e-6") and (z or i):
        # the exact value is 0 or inf, or far beyond the range: the sign of p does not matter
        if z and i:
            return ""
        v = mpf(0) if z else mp.inf
    rel = budget(xs, ws, P, E, n, v)
    if not close(g, v, rel, dt):
        raise Violation(f"{nm}[{dt}](x={pl(x)}, w={pl(w)}, p={p!s}) = {g!s}, the exact value is {mp.nstr(v, 22)}")
    if nm in ("pmean", "pmeanw") and not i and not z and not mp.isnan(v):
        lo, hi = min(kx), max(kx)
        if not lo * (1 - 2 * rel) <= tomp(g) <= hi * (1 + 2 * rel):
            raise Violation(f"{nm}[{dt}](x={pl(x)}, p={p!s}) = {g!s} is not between min and max")
    return "zero" if z else "inf" if i else "p=" + (mp.nstr(P, 3) if P in (0, 1, -1, mp.inf, -mp.inf) else "other")


FN = ["gmean", "hmean", "pmean", "gmeanw", "hmeanw", "pmeanw"]


def body(c):
    dt, n, B = c["dt"], c["n"], len(c["x"])
    x = mk(c["x"], dt, (B, n))
    w, p = mk(c["w"], dt, (B, n)), mk(c["p"], dt, (B,))
    one_w = np.ones_like(x)
    lab = ""
    t = np.dtype(dt).type
    for nm in FN:
        f = getattr(u, nm)
        ar = [x] + ([w] if nm[-1] == "w" else []) + ([p] if nm[0] == "p" else [])
        g = styled(f, ar, c["sty"], outdt=dt)[0]
        if g.dtype != np.dtype(dt):
            raise Violation(f"{nm}[{dt}]: result {g.dtype}")
        for b in range(B):
            pb = p[b] if nm[0] == "p" else t(0) if nm[0] == "g" else t(-1)
            if nm[0] != "p" and not (x[b] >= 0).all():
                continue
            lab = one(nm, f, dt, x[b], w[b] if nm[-1] == "w" else one_w[b], pb, g[b], c) or lab
        if nm[-1] == "w":
            # unit weights are the same as none
            base = getattr(u, nm[:-1])
            a = call(f, x, one_w, *ar[2:])
            q = call(base, x, *ar[2:])
            with np.errstate(all="ignore"):
                bad = ~((a == q) | ((a != a) & (q != q)) | (abs(a - q) <= 40 * n * np.finfo(dt).eps * abs(q) *
                                                           (1 + 1 / np.maximum(abs(p) if nm[0] == "p" else 1, 2e-6)) + 0))
            if bad.any():
                raise Violation(f"{nm}[{dt}]({pl(x)}, 1, {pl(p)}) = {pl(a)} but without weights {pl(q)}")
    return lab if n > 1 else ""


def mono(c):
    """pmean does not decrease with p, and is homogeneous (exactly, for powers of two)"""
    dt, n, B = c["dt"], c["n"], len(c["x"])
    x = np.abs(mk(c["x"], dt, (B, n)))
    x = np.where(np.isfinite(x), x, np.dtype(dt).type(1))
    ps = np.sort(mk([[-INF, -9.0, -2.0, -1.0, -0.25, 0.0, 0.25, 1.0, 2.0, 9.0, INF]], "d")[0].astype(dt))
    g = call(u.pmean, lay(x[:, None, :], c["sty"]["lay"][0]), ps)
    if not np.isfinite(g).all():
        raise Violation(f"pmean[{dt}]({pl(x)}, {pl(ps)}) = {pl(g)}")
    L = np.log(np.maximum(x, np.finfo(dt).tiny))
    tol = np.finfo(dt).eps * (60 * n + 8 * abs(L).max())
    d = g[:, 1:] - g[:, :-1] * (1 - np.dtype(dt).type(tol))
    if (d < 0).any():
        raise Violation(f"pmean[{dt}]({pl(x)}, {pl(ps)}) = {pl(g)} decreases with p")
    k = np.dtype(dt).type(2.0) ** (c["k"])
    h = call(u.pmean, x[:, None, :] * k, ps)
    if (abs(h - g * k) > tol * abs(h)).any():
        raise Violation(f"pmean[{dt}] is not homogeneous: x={pl(x)}, factor {k}: {pl(h)} vs {pl(g * k)}")
    return "" if n < 2 else "monotone"


def mono_case(s, dt):
    c = case(s, dt)
    el = mags(s, dt, 40, sign=False)
    c["x"] = [[el() for _ in range(c["n"])] for _ in c["x"]]
    c["k"] = s.near0(8)
    return c


def facets(tier):
    return [Facet("values", [src(lambda s, d=d: case(s, d), 600) for d in "fdg"], body, 2400, 60000,
                  evals=lambda c: 6 * len(c["x"]), rule="more than one element, labelled by p or the special element"),
            Facet("metamorphic", [src(lambda s, d=d: mono_case(s, d), 600) for d in "fdg"], mono, 3000, 50000,
                  evals=lambda c: 11 * len(c["x"]), rule="more than one element")] + longf.facets("P24")
