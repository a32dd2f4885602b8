"""linear_interp1d against exact rational interpolation, in every broadcasting arrangement."""
from fractions import Fraction
import numpy as np
import ufunclab as u
import longf
from core import Facet, Violation, call
from arr import mk, pl, lay
from gen import src, NAN, INF
from exact import fr, EPS, near, mags

TECHNIQUE = "exact rational interpolation, for every combination of broadcast batch axes of the three arguments"
NOTE = ("Types f, d; any strictly increasing knots including irregular and tightly spaced ones, x at, next to, between and outside the knots, nan, "
        "knots and values of very large or small magnitudes, lengths 1 to 20, batch axes of each argument present, length one or missing (which selects the precomputed-index path), layouts.")


def knots(s, dt, n):
    k = s.byte() % 4
    if k == 0:
        v = sorted({s.near0(40) for _ in range(3 * n + 4)})
        v = [float(q) for q in v]
    elif k == 1:
        v = sorted({s.near0(2000) / 8 for _ in range(3 * n + 4)})
    elif k == 2:
        c = s.near0(1000) * 1.0
        v = sorted({c + s.near0(3000) * 2.0 ** -10 for _ in range(3 * n + 4)})
    else:
        el = mags(s, dt, {"f": 30, "d": 200}[dt])
        v = sorted({el() + 0.0 for _ in range(3 * n + 4)})
    v = sorted(set(float(np.float32(q)) for q in v)) if dt == "f" else v
    if len(v) < n:
        v = [float(i) for i in range(n)]
    at = s.rng(0, len(v) - n)
    return v[at:at + n]


def case(s, dt):
    n = s.rng(1, 8)
    if s.chance(1, 8):
        n = s.rng(9, 20)
    bs = [s.rng(1, 3), s.rng(1, 3)]
    bc = s.many(3, lambda: s.rng(0, 5))          # which batch axes each argument has
    nx = {k: None for k in range(3)}
    c = {"dt": dt, "n": n, "bs": bs, "bc": bc, "lay": s.many(3, lambda: s.rng(0, 8)), "out": s.rng(0, 3)}

    def shape(k):
        b = bc[k]
        return [(bs[0], bs[1]), (1, bs[1]), (bs[0], 1), (bs[1],), (), (1, 1)][b]
    sz = [int(np.prod(shape(k))) for k in range(3)]
    c["xp"] = [knots(s, dt, n) for _ in range(sz[1])]
    el = mags(s, dt, {"f": 30, "d": 200}[dt])
    c["fp"] = [[el() for _ in range(n)] for _ in range(sz[2])]
    c["x"] = [[s.rng(0, 7), s.below(n), s.bits(2) / 65536.0, s.below(sz[1])] for _ in range(sz[0])]
    c["sh"] = [list(shape(k)) for k in range(3)]
    if s.chance(1, 4):
        # knots and values far from one, with ordinary slopes
        e = s.pick([-1, 1]) * {"f": 60, "d": 520}[dt]
        for k in ("xp", "fp"):
            c[k] = [[v * 2.0 ** e for v in r] for r in c[k]]
    return c


def body(c):
    dt, n = c["dt"], c["n"]
    t = np.dtype(dt).type
    xp = mk(c["xp"], dt, (len(c["xp"]), n))
    xs = []
    for k, j, f, row in c["x"]:
        p = xp[row]
        a = p[j]
        b = p[min(j + 1, n - 1)]
        xs.append({0: a, 1: a + t(f) * (b - a), 2: np.nextafter(a, t(INF)), 3: np.nextafter(a, t(-INF)), 4: a + t(f) * (b - a),
                   5: t(NAN), 6: p[-1] + t(f), 7: p[0] - t(f)}[k])
    x = np.array(xs, dtype=dt).reshape(c["sh"][0])
    xp = xp.reshape(c["sh"][1] + [n])
    fp = mk(c["fp"], dt, (len(c["fp"]), n)).reshape(c["sh"][2] + [n])
    B = np.broadcast_shapes(*c["sh"])
    kw = {}
    if c["out"] == 1:
        kw["out"] = np.full(B, 99, dtype=dt)
    elif c["out"] == 2:
        kw["out"] = np.full([2 * q for q in B], 99, dtype=dt)[(...,) + tuple(slice(None, None, 2) for _ in B)]
    g = call(u.linear_interp1d, lay(x, c["lay"][0]), lay(xp, c["lay"][1]), lay(fp, c["lay"][2]), **kw)
    g = np.asarray(g)
    if g.dtype != np.dtype(dt) or g.shape != B:
        raise Violation(f"linear_interp1d[{dt}]: result {g.dtype}{g.shape}, expected shape {B}")
    X = np.broadcast_to(x, B)
    XP, FP = np.broadcast_to(xp, B + (n,)), np.broadcast_to(fp, B + (n,))
    E = Fraction(EPS[dt])
    lab = ""
    for ix in np.ndindex(*B):
        v, p, q, r = X[ix], XP[ix], FP[ix], g[ix]
        what = f"linear_interp1d[{dt}]({v!s}, {pl(p)}, {pl(q)}) = {r!s} (item {ix}, batch shapes {c['sh']})"
        if not (p[0] <= v <= p[-1]):
            if r == r:
                raise Violation(what + ", expected nan")
            continue
        k = int(np.searchsorted(p, v, "right")) - 1
        if v == p[k]:
            if r != q[k]:
                raise Violation(what + f", expected exactly {q[k]!s}")
            lab = lab or "knot"
            continue
        a, b, fa, fb = fr(p[k]), fr(p[k + 1]), fr(q[k]), fr(q[k + 1])
        w = fa + (fb - fa) * (fr(v) - a) / (b - a)
        bud = E * (abs(w) + abs(fa) + 8 * abs(fb - fa) * (fr(v) - a) / (b - a))
        if not near(r, w, bud, dt):
            raise Violation(what + f", the exact value is {float(w)!r}")
        lab = "between"
    return lab and lab + " " + "/".join(str(len(q)) + ("*" if np.prod(q) > 1 else "") for q in c["sh"])


def facets(tier):
    return [Facet("interp", [src(lambda s, d=d: case(s, d), 900) for d in "fd"], body, 9000, 250000,
                  evals=lambda c: c["bs"][0] * c["bs"][1], rule="x is a knot or lies between knots; labelled by the batch dimensions of x/xp/fp (* = longer than one)")] + longf.facets("P32")
