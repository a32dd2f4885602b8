"""Long arrays: the value properties for hundreds to a hundred thousand elements.

The data of a case come from a seeded generator; the case holds the seed, the length, the type, the layout
and the batch, so that lengths shrink.  The references are vectorised (long double NumPy, searchsorted, sorting)
or cut the array into short pieces where the function is sequential.
"""
import math
import numpy as np
import ufunclab as u
from core import Facet, Violation
from arr import lay, pl
import gen
from gen import src

LD = np.longdouble
EPS = {c: np.finfo(c).eps for c in "fdg"}
INT = "bBhHiIlLqQ"


def length(s, top):
    k = s.rng(0, 5)
    if k < 2:
        n = s.rng(200, 3000)
    elif k == 2:
        n = s.pick([255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32767, 32768, 32769, 65535, 65536, 65537, 100000])
    elif k == 3:
        n = s.rng(3000, 20000)
    elif k == 4:
        n = s.rng(20000, 130000)
    else:
        n = s.pick(gen.INTEGERS) * s.pick([1, 1, 2, 4]) + s.near0(1) if gen.INTEGERS and s.byte() & 1 else 1 << s.rng(6, 16)
    return max(1, min(n, top))


def case(s, name, types, top, extra):
    return {"f": name, "t": s.pick(types), "n": length(s, top), "seed": s.bits(3), "k": s.byte(), "lay": [s.pick([0, 0, 1, 2, 3, 7, 4]) for _ in range(4)], "B": s.pick([0, 0, 1, 3]),
            "e": [s.byte() for _ in range(extra)]}


def ints(r, t, lo, hi, n):
    """integers as values of the type t"""
    if t in "?BHILQ":
        lo = 0
    if t == "?":
        hi = 1
    return r.integers(lo, hi + 1, size=n).astype(np.dtype(t) if t != "O" else np.int64).astype(t)


def floats(r, t, n, pos=False):
    """values of moderate size, as the type t holds them"""
    x = r.standard_normal(n) * np.exp2(r.integers(-3, 4, size=n))
    x = np.abs(x) + 0.01 if pos else x
    return x.astype(t)


def _at(r, n):
    """a position: anywhere, or at the edge of a block"""
    if r.integers(0, 2):
        return int(r.integers(0, n))
    b = 1 << int(r.integers(2, 13))
    k = b * int(r.integers(0, n // b + 1)) + int(r.integers(-1, 2))
    return min(max(k, 0), n - 1)


def fine(c, x, t):
    """the same values far from zero, where the neighbouring numbers of the type (or of a narrower one) are close"""
    if c["k"] // 8 % 2 == 0 or t in "?bBO":
        return x
    if t in INT:
        top = {"h": 2 ** 14, "H": 2 ** 15, "i": 2 ** 30, "I": 2 ** 31, "l": 2 ** 62, "L": 2 ** 63, "q": 2 ** 62, "Q": 2 ** 63}[t]
        return (x + np.array(top, dtype=t)[()]).astype(t)
    with np.errstate(all="ignore"):
        return (1 + x * np.finfo(t).eps).astype(t)


def L(x):
    return x.astype(LD) if x.dtype.kind != "c" else x.astype(np.clongdouble)


# every function below returns a list of (f, arguments, expected values, tolerance or None)
def first(c, r, n, t):
    x = ints(r, t, 0, 3, n) + (1 if t not in "?" else 0) if t != "e" else ints(r, "l", 1, 4, n).astype("e")
    x = x.astype(t)
    res = []
    for at in (_at(r, n), n - 1, None):
        y = x.copy()
        if at is not None:
            y[at:] = ints(r, "l", 0, 5, n - at).astype(t)
            y[at] = 0 if t == "O" else np.array(0, dtype=t)
        w = np.flatnonzero(y == 0)
        i = int(w[0]) if len(w) else n
        z = fine(c, np.array(0, dtype=t)[()], t)
        y = fine(c, y, t)
        op = u.op.EQ
        res.append((u.argfirst, [y, op, z], i if len(w) else -1, None))
        dv = np.array(9 if t != "?" else 1, dtype=t)[()]
        res.append((u.first, [y, op, z, dv], y[i] if len(w) else dv, None))
        # and the opposite comparison
        one = fine(c, np.array(1, dtype=t)[()], t)
        w = np.flatnonzero(y < one)
        res.append((u.argfirst, [y, u.op.LT, one], int(w[0]) if len(w) else -1, None))
    return res


def minmax(c, r, n, t):
    x = ints(r, t, -40, 40, n)
    for at in (_at(r, n), _at(r, n)):
        x[at] = np.array(50, dtype=t)[()]
    lo = _at(r, n)
    x[lo] = np.array(-60 if t not in INT[1::2] else 0, dtype=t)[()]
    if c["k"] % 3 == 0:
        x[-1] = np.array(70, dtype=t)[()]
    x = fine(c, x, t)
    a, b = int(np.argmin(x)), int(np.argmax(x))
    mn, mx = x[a], x[b]
    return [(u.argmin, [x], a, None), (u.argmax, [x], b, None), (u.minmax, [x], [mn, mx], None), (u.argminmax, [x], [a, b], None),
            (u.min_argmin, [x], (mn, a), None), (u.max_argmax, [x], (mx, b), None)] + ([(u.peaktopeak, [x], int(mx) - int(mn) if t in INT else mx - mn, None)])


def searchs(c, r, n, t):
    x = np.sort(ints(r, t, -100, 100, n)) if c["k"] % 2 or t not in "fdlqO" else np.arange(n).astype(t) * 2
    x = fine(c, x, t)
    res = []
    for v in (x[r.integers(0, n)], x[-1], x[0], fine(c, np.array(7, dtype=t)[()], t), x[r.integers(0, n)] + np.array(1, dtype=t)[()]):
        v = np.array(v, dtype=t)[()]
        res += [(u.searchsortedl, [x, v], int(np.searchsorted(x, v, "left")), None), (u.searchsortedr, [x, v], int(np.searchsorted(x, v, "right")), None)]
    return res


def same(c, r, n, t):
    x = np.full(n, 3 if t != "?" else 1).astype(t)
    y = x.copy()
    at = [n - 1, _at(r, n), 0][c["k"] % 3]
    y[at] = np.array(4 if t != "?" else 0, dtype=t)[()]
    x, y = fine(c, x, t), fine(c, y, t)
    return [(u.all_same, [x], True, None), (u.all_same, [y], n == 1, None)]


def order(c, r, n, t):
    x = np.sort(ints(r, t, -100, 100, n))
    y = x.copy()
    k = _at(r, n)
    y[k] = np.array(120, dtype=t)[()] if t != "?" else True
    z = np.arange(n).astype(t) if t not in "?bBhHe" else None
    res = []
    for q in (x, y, z):
        if q is None:
            continue
        q = fine(c, q, t)
        d = (q[:-1], q[1:])
        for nm, g in (("LT", np.less), ("LE", np.less_equal), ("EQ", np.equal), ("GE", np.greater_equal)):
            res.append((u.ordered, [q, getattr(u.op, nm)], bool(np.all(g(*d))), None))
    return res


def pct(c, r, n, t):
    x = ints(r, t, -50, 50, n)
    s = LD(int(x[r.integers(0, n)])) if c["k"] % 3 else LD(r.integers(-60, 60))
    if t in INT:
        s = np.int64(s)
        lt, le = int((L(x) < s).sum()), int((L(x) <= s).sum())
    else:
        s = np.array(s, dtype=t)[()]
        lt, le = int((x < s).sum()), int((x <= s).sum())
    want = {"RANK": 50.0 * (lt + le + (le > lt)) / n, "WEAK": 100.0 * le / n, "STRICT": 100.0 * lt / n, "MEAN": 50.0 * (lt + le) / n}
    return [(u.percentileofscore, [x, s, getattr(u.op, "KIND_" + k)], LD(w), 400 * EPS["f" if t == "f" else "d"]) for k, w in want.items()]


def ksum(c, r, n, t):
    x = floats(r, t, n)
    if c["k"] % 2:
        x = x * np.array(np.exp2(r.integers(-30, 31, size=n)), dtype=t)
        h = n // 2
        x[h:2 * h] = -x[:h]
        x = x[r.permutation(n)]
    if t == "g":
        from fractions import Fraction
        if n > 4000:
            x = x[:4000]
            n = 4000
        tot = Fraction(0)
        for v in x:
            m, e = np.frexp(v)
            a = int(np.ldexp(m, 64))
            tot += Fraction(a) * Fraction(2) ** (int(e) - 64)
        hi = float(tot)
        want = LD(hi) + LD(float(tot - Fraction(hi)))
    else:
        want = LD(math.fsum(x.tolist()))
    S = np.abs(L(x)).sum()
    e = LD(EPS[t])
    return [(u.kbnsum, [x], want, 4 * e * abs(want) + 8 * n * e * e * S)]


def means(c, r, n, t):
    x, w = floats(r, t, n, True), floats(r, t, n, True)
    X, W = L(x), L(w)
    p = [3.0, -2.0, 1.0, 0.5, 0.0][c["k"] % 5]
    e = LD(EPS[t]) * (20 + 2 * n)
    ws = W / W.sum()
    g, gw = np.exp(np.log(X).mean()), np.exp((ws * np.log(X)).sum())
    h, hw = 1 / (1 / X).mean(), 1 / (ws / X).sum()
    P = LD(p)
    pm, pw = (g, gw) if p == 0 else ((X ** P).mean() ** (1 / P), (ws * X ** P).sum() ** (1 / P))
    pt = np.array(p, dtype=t)[()]
    return [(u.gmean, [x], g, 10 * e * g), (u.hmean, [x], h, 10 * e * h), (u.gmeanw, [x, w], gw, 10 * e * gw), (u.hmeanw, [x, w], hw, 10 * e * hw),
            (u.pmean, [x, pt], pm, 10 * e * pm), (u.pmeanw, [x, w, pt], pw, 10 * e * pw)]


def mv(c, r, n, t):
    x = ints(r, t, -60, 60, n) if t not in "fdg" else floats(r, t, n)
    X = L(x)
    dd = c["k"] % 2
    m = X.mean()
    v = ((X - m) ** 2).sum() / max(n - dd, 1)
    if n - dd < 1:
        return []
    e = LD(EPS[t if t in "fdg" else "d"]) * (20 + 4 * n)
    s = np.abs(X).mean()
    return [(u.meanvar, [x, np.int64(dd)], np.array([m, v]), np.array([4 * e * s, 4 * e * (v + s * s)]))]


def corr(c, r, n, t):
    x = ints(r, t, -60, 60, n) if t not in "fdg" else floats(r, t, n)
    y = ints(r, t, -60, 60, n) if t not in "fdg" else (x * np.array(0.5 * (-1) ** (c["k"] % 2), dtype=t) + floats(r, t, n)).astype(t)
    X, Y = L(x), L(y)
    X, Y = X - X.mean(), Y - Y.mean()
    d = np.sqrt((X * X).sum() * (Y * Y).sum())
    if n < 3 or not d > 0:
        return []
    e = LD(EPS[t if t in "fdg" else "d"]) * (20 + 4 * n)
    return [(u.pearson_corr, [x, y], (X * Y).sum() / d, 20 * e)]


def mads(c, r, n, t):
    x = floats(r, t, n, c["k"] % 2 == 1)
    X = np.sort(L(x))
    ub = bool(c["k"] & 2)
    S = 2 * (X * (2 * np.arange(n, dtype=LD) - (n - 1))).sum()
    den = LD(n) * (n - 1) if ub else LD(n) * n
    if n < 2:
        return []
    m = S / den
    A = np.abs(X).max()
    e = LD(EPS[t]) * (40 + 4 * n)
    mean = X.mean()
    res = [(u.mad, [x, ub], m, 4 * e * A)]
    if c["k"] % 2 == 1:
        q = abs(m / mean)
        res += [(u.rmad, [x, ub], m / mean, 40 * e * (q + A / mean)), (u.gini, [x, ub], m / mean / 2, 40 * e * (q + A / mean))]
    return res


def norms(c, r, n, t):
    R = t.lower()
    x = floats(r, R, n) if t in "fdg" else (floats(r, R, n) + 1j * floats(r, R, n)).astype(t)
    if c["k"] % 3 == 0:
        x = x * np.array(2.0, dtype=R) ** [40, 400, 4000]["fdg".index(R)] * 1
        x = x.astype(t)
    X = np.abs(L(x))
    M = X.max()
    p = [2.0, 1.0, 3.0, 0.5, math.inf, 2.5][c["k"] % 6]
    want = M if math.isinf(p) else M * ((X / M) ** LD(p)).sum() ** (1 / LD(p))
    e = LD(EPS[R]) * (40 + 4 * n)
    rms = M * np.sqrt(((X / M) ** 2).mean())
    res = [(u.vnorm, [x, np.array(p, dtype=R)[()]], want, 10 * e * want)]
    if c["k"] % 3:
        res.append((u.rms, [x], rms, 10 * e * rms))
    if t in "fdg":
        y = floats(r, t, n)
        x = floats(r, t, n)
        res.append((u.vdot, [x, y], (L(x) * L(y)).sum(), 4 * e * (np.abs(L(x) * L(y))).sum()))
    return res


def jac(c, r, n, t):
    x, y = (ints(r, t, 0, 100, n), ints(r, t, 0, 100, n)) if t not in "fd" else (floats(r, t, n, True), floats(r, t, n, True))
    X, Y = L(x), L(y)
    q = np.minimum(X, Y).sum() / np.maximum(X, Y).sum() if np.maximum(X, Y).sum() > 0 else LD(1)
    e = LD(EPS["f" if t == "f" else "d"]) * (20 + 2 * n)
    return [(u.wjaccard, [x, y], q, 4 * e)]


def pieces(f, n, step):
    """indices where the array is cut"""
    k = list(range(0, n, step)) + [n]
    return list(zip(k, k[1:]))


def backl(c, r, n, t):
    x = (np.cumsum(r.integers(-8, 9, size=n)) / 4).astype(t)
    d, i = np.array(3.5, dtype=t)[()], np.array(0.25, dtype=t)[()]
    want, s = [], i
    for a, b in pieces(None, n, 61):
        q = u.backlash(x[a:b].copy(), d, s)
        s = q[-1]
        want.append(q)
    res = [(u.backlash, [x, d, i], np.concatenate(want), None)]
    w, dd, ini = np.array([1, 0.5, 2]).astype(t), np.array([0.5, 2, 4]).astype(t), np.array([0, 1, -1]).astype(t)
    y, s = [], ini
    for a, b in pieces(None, n, 53):
        q, s = u.backlash_sum(x[a:b].copy(), w, dd, s)
        y.append(q)
    res.append((u.backlash_sum, [x, w, dd, ini], (np.concatenate(y), s), None))
    lo, hi, a1, a2 = [np.array(v, dtype=t)[()] for v in (-1.5, 2.0, -3.0, 5.0)]
    z = (r.standard_normal(n) * 2).astype(t)
    z[z > 1.9] = 1.0 if c["k"] % 2 else 2.5
    want, s = [], np.array(5.0, dtype=t)[()]
    for a, b in pieces(None, n, 47):
        q = u.hysteresis_relay(z[a:b].copy(), lo, hi, a1, a2, s)
        s = q[-1]
        want.append(q)
    return res + [(u.hysteresis_relay, [z, lo, hi, a1, a2, np.array(5.0, dtype=t)[()]], np.concatenate(want), None)]


def sosf(c, r, n, t):
    m = 1 + c["k"] % 4
    if c["k"] % 16 == 15:
        m = 30
    sos = np.empty((m, 6), dtype=t)
    sos[:, :3] = ints(r, "l", -4, 4, 3 * m).reshape(m, 3) / 4
    sos[:, 3] = 1
    sos[:, 4:] = ints(r, "l", -2, 2, 2 * m).reshape(m, 2) / 8
    x = ints(r, "l", -8, 8, n).astype(t)
    y, z = [], np.zeros((m, 2), dtype=t)
    for a, b in pieces(None, n, 97):
        q, z = u.sosfilter_ic(sos, x[a:b].copy(), z)
        y.append(q)
    y = np.concatenate(y)
    e = 1000 * m * EPS[t] * max(1.0, float(np.abs(y).max()))
    return [(u.sosfilter, [sos, x], L(y), e), (u.sosfilter_ic, [sos, x, np.zeros((m, 2), dtype=t)], (L(y), L(z)), e)]


def unwr(c, r, n, t):
    p = np.array([8.0, 0.5, 1.0][c["k"] % 3], dtype=t)[()]
    true = np.cumsum(r.integers(-15, 16, size=n)) * float(p) / 32
    x = (true - np.floor(true / float(p)) * float(p)).astype(t)
    want = true - true[0] + float(x[0])
    return [(u.unwrap, [x, p], want.astype(LD), 0 if t != "f" or np.abs(want).max() < 1e5 else EPS["f"] * 8 * np.abs(want).max())]


def filln(c, r, n, t):
    x = floats(r, t, n)
    k = c["k"] % 3
    bad = r.random(n) < (0.5 if k else 0.99)
    if k == 2:
        a = _at(r, n)
        bad[a:a + n // 2] = True
    if bad.all():
        bad[_at(r, n)] = False
    i = np.flatnonzero(~bad)
    x[bad] = np.nan
    I = np.arange(n, dtype=LD)
    j = np.clip(np.searchsorted(i, np.arange(n), "right") - 1, 0, len(i) - 1)
    lo, hi = i[j], i[np.minimum(j + 1, len(i) - 1)]
    X = L(x)
    w = np.where(hi > lo, (I - lo) / np.where(hi > lo, hi - lo, 1), 0)
    want = np.where(I < i[0], X[i[0]], np.where(bad, X[lo] + w * (X[hi] - X[lo]), X))
    return [(u.fillnan1d, [x], want, 16 * EPS[t] * np.nanmax(np.abs(x)))]


def interp(c, r, n, t):
    if n < 2:
        return []
    xp = np.cumsum(r.integers(1, 5, size=n)).astype(t) / (1 if c["k"] % 2 else 2)
    if t == "f" and n > 30000:
        return []
    xp = xp.astype(t)
    fp = ints(r, "l", -50, 50, n).astype(t)
    m = [5, 300, 20000][c["e"][0] % 3]
    x = (r.random(m) * float(xp[-1]) * 1.02 - 1).astype(t)
    x[:3] = xp[r.integers(0, n, size=3)]
    i = np.clip(np.searchsorted(xp, x, "right") - 1, 0, n - 2)
    X, XP, FP = L(x), L(xp), L(fp)
    want = FP[i] + (X - XP[i]) / (XP[i + 1] - XP[i]) * (FP[i + 1] - FP[i])
    want = np.where((X < XP[0]) | (X > XP[-1]), LD("nan"), want)
    return [(u.linear_interp1d, [x, xp, fp], want, LD(EPS[t]) * 2000)]


def softm(c, r, n, t):
    x = floats(r, t, n)
    if c["k"] % 2:
        x = x * 30
        x = x.astype(t)
    X = L(x)
    q = np.exp(X - X.max())
    want = q / q.sum()
    return [(u.softmax, [x], want, LD(EPS[t]) * (400 + 4 * n) * want + np.finfo(t).tiny)]


def tri(c, r, n, t):
    p = ints(r, "l", -20, 20, 3 * n).reshape(3, n).astype(t)
    P = p.astype(np.int64)
    a, b = P[1] - P[0], P[2] - P[0]
    det = LD(int((a * a).sum())) * LD(int((b * b).sum())) - LD(int((a * b).sum())) ** 2
    area = np.sqrt(det) / 2
    e = LD(EPS[t]) * (100 + 4 * n)
    m = n
    q = ints(r, "l", -20, 20, 3 * m).reshape(m, 3).astype(t)
    ix = r.integers(0, m, size=3)
    if c["k"] % 2:
        ix[0] = m - 1
    A, B = (q[ix[1]] - q[ix[0]]).astype(np.int64), (q[ix[2]] - q[ix[0]]).astype(np.int64)
    C = np.cross(A, B)
    ar = np.sqrt(LD(int((C * C).sum()))) / 2
    return [(u.tri_area, [p], area, 10 * e * area), (u.tri_area_indexed, [q, ix.astype(np.int64)], ar, LD(EPS[t]) * 3000 * max(ar, 1))]


def binc(c, r, n, t):
    m = [7, 300, 5000, 70000, 1, 20, 256, 40][c["e"][0] % 8]
    x = r.integers(0, min(m + 2, 127 if t in "b" else (255 if t == "B" else (32767 if t == "h" else (65535 if t == "H" else 10 ** 9)))), size=n).astype(t)
    if c["k"] % 4 in (1, 3):
        # one value (nearly) everywhere
        x[r.random(n) < (1.0 if c["k"] & 2 else 0.999)] = min(int(x[0]), m - 1)
    elif c["k"] % 4 == 2:
        x = np.sort(x)
    keep = x < m if t not in "b" else x.astype(int) < m
    want = np.bincount(x[keep].astype(np.int64), minlength=m)
    w = r.integers(-9, 10, size=n).astype([np.float64, np.float32, np.int64][c["k"] % 3])
    ww = np.bincount(x[keep].astype(np.int64), weights=w[keep].astype(float), minlength=m)
    return [(lambda x: u.bincount(x, m), [x], want, None), (lambda x, w: u.bincount(x, m, weights=w), [x, w], ww, 0)]


def bases(c, r, n, t):
    k = int(r.integers(0, min(np.iinfo(t).max, 2 ** 62)))
    b = [2, 3, 10, 7][c["k"] % 4]
    want, q = [], k
    for _ in range(n):
        want.append(q % b)
        q //= b
    kk = np.array(k, dtype=t)[()]
    at = _at(r, n)
    return [(lambda k: u.convert_to_base(k, np.array(b, dtype=t)[()], n), [kk], want, None), (lambda k: u.one_hot(k, n), [np.int64(at)], (np.arange(n) == at).astype(np.int64), None)]


def nextn(c, r, n, t):
    v = np.array([1.0, -1.0, 0.0, 3.5][c["k"] % 4], dtype=t)[()]
    up, dn = [], []
    a = b = v
    for _ in range(n):
        a, b = np.nextafter(a, np.array(np.inf, dtype=t)), np.nextafter(b, np.array(-np.inf, dtype=t))
        up.append(a)
        dn.append(b)
    return [(lambda x: u.nextn_greater(x, n), [v], np.array(up), None), (lambda x: u.nextn_less(x, n), [v], np.array(dn), None)]


def logbeta(c, r, n, t):
    x = (r.integers(1, 40, size=n) / 4).astype(t)
    xs = [float(v) for v in x]
    terms = [math.lgamma(v) for v in xs]
    last = math.lgamma(math.fsum(xs))
    want = math.fsum(terms) - last
    e = LD(EPS["d" if t == "g" else t]) * (100 + 4 * n)
    return [(u.multivariate_logbeta, [x], LD(want), e * (abs(last) + sum(abs(v) for v in terms)))]


_gd = {}


def gend(c, r, n, t):
    if not _gd:
        _gd["any_eq"] = u.gendot(np.equal, np.logical_or)
        _gd["all_eq"] = u.gendot(np.equal, np.logical_and)
        _gd["summax"] = u.gendot(np.maximum, np.add)
        _gd["maxsum"] = u.gendot(np.add, np.maximum)
        _gd["sumprod"] = u.gendot(np.multiply, np.add)
        _gd["subprod"] = u.gendot(np.add, np.subtract)
        _gd["argmax"] = u.gendot(np.add, u.argmax)
        _gd["kbn"] = u.gendot(np.multiply, u.kbnsum)
    x, y = ints(r, t, 0, 50, n), ints(r, t, 60, 90, n)
    k = _at(r, n)
    z = y.copy()
    z[k] = x[k]
    w = x.copy()
    w[k] = np.array(99, dtype=t)[()]
    big = t in "lqd"
    res = [(_gd["any_eq"], [x, y], False, None), (_gd["any_eq"], [x, z], True, None), (_gd["all_eq"], [x, x.copy()], True, None), (_gd["all_eq"], [x, w], False, None),
           (_gd["maxsum"], [x, y], np.add(x, y).max(), None)]
    if big:
        res += [(_gd["summax"], [x, y], np.maximum(x, y).sum(), None), (_gd["sumprod"], [x, y], (x * y).sum(), None),
                (_gd["subprod"], [x, y], np.subtract.reduce(x + y), None), (_gd["argmax"], [x, y], int(np.argmax(x + y)), None)]
    if t == "d":
        res += [(_gd["kbn"], [x, y], (x * y).sum(), None)]
    return res


ALL = INT + "fdgO"
SPEC = {
    "P18": [("first", first, "bhilfdgO", 130000)],
    "P19": [("extrema", minmax, ALL, 130000)],
    "P20": [("searchsorted", searchs, "bBhHiIlLfdgO", 130000)],
    "P21": [("all_same", same, "bBhHiIlLfdgO", 130000), ("ordered", order, "bhilfdg", 130000)],
    "P22": [("percentile", pct, "bBhHiIlLfd", 130000)],
    "P23": [("kbnsum", ksum, "fdg", 130000)],
    "P24": [("means", means, "fddg", 130000)],
    "P25": [("meanvar", mv, "bBhHiIlLfdg", 130000), ("pearson", corr, "bBhHiIlLfdg", 130000)],
    "P26": [("mad", mads, "fddg", 130000)],
    "P27": [("norms", norms, "fdgFDG", 130000)],
    "P28": [("wjaccard", jac, "bBhHiIlLfd", 130000)],
    "P29": [("backlash", backl, "fdg", 40000)],
    "P30": [("sosfilter", sosf, "fdg", 40000)],
    "P31": [("unwrap", unwr, "fdg", 130000), ("fillnan1d", filln, "fdg", 130000)],
    "P32": [("interp", interp, "fd", 130000)],
    "P33": [("softmax", softm, "fdg", 130000)],
    "P34": [("tri_area", tri, "fdg", 130000)],
    "P35": [("bincount", binc, "bBhHiIlL", 130000)],
    "P36": [("digits", bases, "bhilBHIL", 20000)],
    "P37": [("gendot", gend, "bhilfd", 130000)],
    "P17": [("nextn", nextn, "fdg", 3000)],
    "P07": [("logbeta", logbeta, "fd", 20000)],
}


def cmp(what, g, w, tol, ints_ok):
    g, w = np.asarray(g), np.asarray(w)
    if g.shape != w.shape:
        raise Violation(f"{what}: shape {g.shape}, expected {w.shape}")
    if tol is None:
        ok = (g == w) | ((g != g) & (w != w))
    else:
        ok = (np.abs(g.astype(LD) - w) <= tol) | ((g != g) & (w != w))
    if not np.all(ok):
        i = np.flatnonzero(~np.atleast_1d(np.asarray(ok, dtype=bool)).ravel())[0]
        raise Violation(f"{what}: item {i} is {np.atleast_1d(g).ravel()[i]!r}, expected {np.atleast_1d(w).ravel()[i]!r}"
                        + ("" if tol is None else f" +- {float(np.max(tol))}"))


def body(fn):
    def run(c):
        r = np.random.default_rng(c["seed"])
        with np.errstate(all="ignore"):
            todo = fn(c, r, c["n"], c["t"])
            for j, (f, args, want, tol) in enumerate(todo):
                name = getattr(f, "__name__", "") if getattr(f, "__name__", "") != "<lambda>" else f"{c['f']} {j}"
                xs = [lay(a, c["lay"][i % 4]) if isinstance(a, np.ndarray) else a for i, a in enumerate(args)]
                B = c["B"] if j == 0 and isinstance(f, np.ufunc) and f.signature and isinstance(args[0], np.ndarray) else 0
                what = f"{name}[{c['t']}] of {c['n']} elements (seed {c['seed']}, layouts {c['lay']}, batch {B})"
                if B:
                    # a batch: the same problem again, next to others
                    core = xs[0].ndim
                    xs[0] = np.stack([np.asarray(xs[0])] * B) if B == 1 else np.stack([np.asarray(xs[0]), np.asarray(xs[0])[..., ::-1], np.asarray(xs[0])])
                try:
                    g = f(*xs)
                except Exception as e:
                    raise Violation(f"{what}: {e!r}")
                gs = g if isinstance(g, tuple) else (g,)
                ws = want if isinstance(want, tuple) else (want,)
                if len(gs) != len(ws):
                    raise Violation(f"{what}: {len(gs)} results")
                for q, w in zip(gs, ws):
                    if B:
                        q0, q1 = q[0], q[-1]
                        cmp(what, q0, w, tol, None)
                        q = q1
                    cmp(what, q, w, tol, None)
        return f"{c['f']} {'2^' + str(c['n'].bit_length() - 1)}" if todo and c["n"] > 100 else ""
    return run


# ---------------------------------------------------------------- element by element
UFUNCS = {
    "P07": ["logfactorial", "loggamma1p"], "P08": ["expint1", "logexpint1"], "P09": ["debye1"], "P10": ["log1p_theorem4", "log1p_doubledouble"],
    "P11": ["abs_squared", "abssq", "hypot3", "pow1pm1"], "P12": ["erfcx", "normal.cdf", "normal.sf", "normal.logcdf", "normal.logsf"],
    "P13": ["logistic", "logistic_deriv", "log_logistic", "swish", "hyperbolic_ramp", "exponential_ramp"], "P14": ["yeo_johnson", "inv_yeo_johnson"],
    "P15": ["step", "linearstep", "smoothstep3", "invsmoothstep3", "smoothstep5", "deadzone", "trapezoid_pulse"],
    "P16": ["semivar.exponential", "semivar.linear", "semivar.spherical", "semivar.parabolic"], "P17": ["nan_to_num", "next_less", "next_greater", "issnan"],
}


def ecase(s, names):
    import reg
    n = s.pick(names)
    return {"f": n, "k": s.rng(1, 13), "n": length(s, 130000), "c": reg.gen_case(s, [n], dmax=4, zero=False, style=s.byte() % 3), "v": [s.byte() for _ in range(8)],
            "lay": [s.pick([0, 0, 1, 2, 7, 3]) for _ in range(7)]}


def ebody(c):
    import reg
    f = reg.FUNCS[c["f"]]
    xs = [np.asarray(x).ravel() for x in reg.build(c["c"])]
    if any(x.size == 0 for x in xs):
        return ""
    n, k = c["n"], c["k"]
    # k different combinations of operands, then the same again and again; some operands are scalars
    xs = [x[(np.arange(k) * (1 + c["v"][i % 8] % 3)) % x.size] for i, x in enumerate(xs)]
    xs = [x[0] if c["v"][(i + 3) % 8] % 5 == 0 and len(xs) > 1 else x for i, x in enumerate(xs)]
    with np.errstate(all="ignore"):
        small = f(*xs, signature=c["c"]["t"])
        small = np.broadcast_to(small, (k,))
        big = [x if np.ndim(x) == 0 else lay(np.resize(x, n), c["lay"][i % 7]) for i, x in enumerate(xs)]
        g = f(*big, signature=c["c"]["t"])
    g = np.broadcast_to(g, (n,))
    w = np.resize(small, n)
    if not reg.agree(g, w, reg.scale_of([np.asarray(x) for x in xs])):
        bad = ~((g == w) | ((g != g) & (w != w)))
        i = np.flatnonzero(bad)
        i = i[0] if len(i) else 0
        raise Violation(f"{c['f']}[{c['c']['t']}] of {n} elements gives {g[i]!r} at {i}, but {w[i]!r} in an array of {k} elements; operands {[pl(x if np.ndim(x) == 0 else x[i % k]) for x in xs]}")
    return f"2^{n.bit_length() - 1}" if n > 100 else ""


def ufacets(prop, quick=400, thorough=20000):
    return [Facet("long arrays", src(lambda s: ecase(s, UFUNCS[prop]), 700), ebody, quick, thorough, rule="more than 100 elements; labelled by the length")]


def facets(prop, quick=160, thorough=6000):
    return [Facet("long " + nm, src((lambda nm, ty, top: lambda s: case(s, nm, ty, top, 4))(nm, ty, top), 60), body(fn), quick * (5 if nm == "bincount" else 1), thorough,
                  rule="more than 100 elements; labelled by the length") for nm, fn, ty, top in SPEC[prop]]
