"""backlash, backlash_sum and hysteresis_relay against step-by-step simulation, in one call and in pieces."""
from fractions import Fraction
import numpy as np
import ufunclab as u
import longf
from core import Facet, Violation, call
from arr import mk, styled, pl, lay, same
from arr import same as arr_same
from gen import src, NAN, INF
from exact import fr, EPS, near, mags, rescale

TECHNIQUE = "step-by-step simulation in exact arithmetic, over generated input histories split at generated points (model-based)"
NOTE = ("Types f, d, g; random walks, reversals, values exactly on a band edge or threshold, infinities and nan (which holds the state), deadband 0, "
        "any number of operators in backlash_sum (including 0), one to four pieces with the state carried over, layouts and call styles.")


def signal(s, dt, n, lo, hi):
    """a history: walk on a coarse grid, jumps, or arbitrary values"""
    k = s.byte() % 4
    if k < 2:
        v, out = 0, []
        for _ in range(n):
            v += s.pick([1, -1, 2, -2, 1, 1, -1, -1, 0, 5, -5])
            out.append(v / 4)
        return out
    if k == 2:
        return [s.pick([lo, hi, 0.0, (lo + hi) / 2, lo - 0.25, hi + 0.25, 4 * hi, -4 * hi]) for _ in range(n)]
    el = mags(s, dt, 30)
    return [el() for _ in range(n)]


def sprinkle(s, r):
    """missing values: the state is held"""
    if r and s.chance(1, 6):
        for _ in range(s.rng(1, 2)):
            r[s.below(len(r))] = NAN
    return r


def cuts(s, n):
    return sorted(s.rng(0, n) for _ in range(s.rng(1, 3)))


def bcase(s, dt):
    n, B = s.rng(0, 24), s.rng(1, 2)
    if s.chance(1, 3):
        # values with all digits: then the simulation is only a few rounding errors away
        el, po = mags(s, dt, 3), mags(s, dt, 3, sign=False)
        return {"dt": dt, "n": n, "sty": s.style(), "db": s.many(B, po), "x0": s.many(B, el), "cut": cuts(s, n), "x": [[el() for _ in range(n)] for _ in range(B)], "fine": True}
    dbs = s.many(B, lambda: s.rng(0, 12) / 4)
    return {"dt": dt, "n": n, "sty": s.style(), "db": dbs, "x0": s.many(B, lambda: s.near0(12) / 4),
            "cut": cuts(s, n), "x": [sprinkle(s, signal(s, dt, n, -d / 2, d / 2)) for d in dbs]}


def sim_backlash(x, half, y):
    """x, half, y exact (Fractions)"""
    out = []
    for v in x:
        if v - half > y:
            y = v - half
        elif v + half < y:
            y = v + half
        out.append(y)
    return out


def bl_ref(x, db, y, dt):
    """in the arithmetic of the type: x -+ half is rounded once"""
    t = np.dtype(dt).type
    half = t(db) / t(2)
    out = []
    y = t(y)
    for v in x:
        if v - half > y:
            y = v - half
        elif v + half < y:
            y = v + half
        out.append(y)
    return out


def bbody(c):
    dt, n, B = c["dt"], c["n"], len(c["x"])
    x, db, x0 = mk(c["x"], dt, (B, n)), mk(c["db"], dt, (B,)), mk(c["x0"], dt, (B,))
    want = np.array([bl_ref(x[b], db[b], x0[b], dt) for b in range(B)], dtype=dt).reshape(B, n)
    g = styled(u.backlash, [x, db, x0], c["sty"], outdt=dt)[0]
    if c.get("fine"):
        # the operator is a contraction in the maximum norm, so that rounding errors do not add up
        tol = 4 * np.dtype(dt).type(EPS[dt]) * (np.abs(x).max(initial=0) + np.abs(db).max(initial=0) + np.abs(x0).max(initial=0))

        def same(a, b):
            return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol))
    else:
        same = arr_same
    if g.dtype != np.dtype(dt) or not same(g, want):
        raise Violation(f"backlash[{dt}]({pl(x)}, {pl(db)}, {pl(x0)}) = {pl(g)}, simulation gives {pl(want)}")
    state, parts, at = x0, [], 0
    for k in c["cut"] + [n]:
        p = call(u.backlash, lay(x[:, at:k], c["sty"]["lay"][1]), db, state)
        parts.append(p)
        if k > at:
            state = p[:, -1]
        at = k
    if not same(np.concatenate(parts, axis=1), want):
        raise Violation(f"backlash[{dt}]({pl(x)}, {pl(db)}, {pl(x0)}) in pieces cut at {c['cut']} gives "
                        f"{pl(np.concatenate(parts, axis=1))}, at once {pl(want)}")
    if n < 2:
        return ""
    d = np.diff(np.concatenate([x0[:, None], want], axis=1), axis=1)
    return ("reverses" if (d > 0).any() and (d < 0).any() else "moves" if (d != 0).any() else "rests") + \
        (" and sticks" if (d == 0).any() else "")


# ---------------------------------------------------------------- backlash_sum
def scase(s, dt):
    n, m, B = s.rng(0, 14), s.rng(0, 4), s.rng(1, 2)
    if s.chance(1, 4):
        el = mags(s, dt, 3)
        return {"dt": dt, "n": n, "m": m, "sty": s.style(), "db": s.many(B, lambda: s.many(m, lambda: s.rng(0, 12) / 4)),
                "w": s.many(B, lambda: s.many(m, el)), "x0": s.many(B, lambda: s.many(m, lambda: s.near0(12) / 4)),
                "cut": cuts(s, n), "x": [sprinkle(s, signal(s, dt, n, -1.0, 1.0)) for _ in range(B)]}
    return {"dt": dt, "n": n, "m": m, "sty": s.style(), "db": s.many(B, lambda: s.many(m, lambda: s.rng(0, 12) / 4)),
            "w": s.many(B, lambda: s.many(m, lambda: s.near0(24) / 8)), "x0": s.many(B, lambda: s.many(m, lambda: s.near0(12) / 4)),
            "cut": cuts(s, n), "x": [sprinkle(s, signal(s, dt, n, -1.0, 1.0)) for _ in range(B)]}


def sbody(c):
    dt, n, m, B = c["dt"], c["n"], c["m"], len(c["x"])
    x = mk(c["x"], dt, (B, n))
    w, db, x0 = (mk(c[k], dt, (B, m)) for k in ("w", "db", "x0"))
    g, f = styled(u.backlash_sum, [x, w, db, x0], c["sty"], outdt=dt + dt)
    ys = [[bl_ref(x[b], db[b, j], x0[b, j], dt) for j in range(m)] for b in range(B)]
    wf = np.array([[ys[b][j][-1] if n else x0[b, j] for j in range(m)] for b in range(B)], dtype=dt).reshape(B, m)
    E = Fraction(EPS[dt])

    def check(g, f, what):
        if not same(f, wf):
            raise Violation(f"backlash_sum[{dt}]({pl(x)}, {pl(w)}, {pl(db)}, {pl(x0)}){what}: final {pl(f)}, simulation gives {pl(wf)}")
        for b in range(B):
            for k in range(n):
                t = [fr(w[b, j]) * fr(ys[b][j][k]) for j in range(m)]
                S = sum(t, Fraction(0))
                if not near(g[b, k], S, (m + 1) * E * sum((abs(q) for q in t), Fraction(0)), dt):
                    raise Violation(f"backlash_sum[{dt}]({pl(x)}, {pl(w)}, {pl(db)}, {pl(x0)}){what}: item {b, k} is "
                                    f"{g[b, k]!s}, simulation gives {float(S)!r}")
    check(g, f, "")
    state, parts, at = x0, [], 0
    for k in c["cut"] + [n]:
        p, state = call(u.backlash_sum, lay(x[:, at:k], c["sty"]["lay"][1]), w, db, state)
        parts.append(p)
        at = k
    check(np.concatenate(parts, axis=1), state, f" in pieces cut at {c['cut']}")
    return "sum of %d" % m if n > 1 and m else ""


# ---------------------------------------------------------------- relay
def nudge(v, dt, k):
    """a neighbour of v in the type, as plain data"""
    x = mk([v], dt, (1,))[0]
    x = np.nextafter(x, x.dtype.type(k * np.inf))
    if dt == "g":
        hi = float(x)
        return [hi, float(x - np.longdouble(hi))]
    return float(x)


def rcase(s, dt):
    n, B = s.rng(0, 24), s.rng(1, 2)
    if s.chance(1, 3):
        el = mags(s, dt, 4)
        ab = [sorted([el(), el()], key=lambda v: mk([v], dt, (1,))[0]) for _ in range(B)]
        rows = []
        for a, b in ab:
            pool = [a, b, nudge(a, dt, 1), nudge(b, dt, -1), nudge(a, dt, -1), nudge(b, dt, 1), el(), el()]
            rows.append([s.pick(pool) for _ in range(n)])
        return {"dt": dt, "n": n, "sty": s.style(), "lo": [a for a, _ in ab], "hi": [b for _, b in ab], "lv": s.many(B, el), "hv": s.many(B, el),
                "init": s.many(B, el), "cut": cuts(s, n), "x": rows}
    lo, hi, rows = [], [], []
    for _ in range(B):
        a, b = sorted([s.near0(8) / 4, s.near0(8) / 4])
        lo.append(a)
        hi.append(b)
        r = signal(s, dt, n, a, b)
        for _ in range(s.rng(0, 2)):
            if n and s.chance(1, 3):
                r[s.below(n)] = s.pick([NAN, INF, -INF])
        rows.append(r)
    return {"dt": dt, "n": n, "sty": s.style(), "lo": lo, "hi": hi, "lv": s.many(B, lambda: float(s.near0(3))),
            "hv": s.many(B, lambda: float(s.near0(3))), "init": s.many(B, lambda: s.near0(8) / 2), "cut": cuts(s, n), "x": rows}


def rbody(c):
    dt, n, B = c["dt"], c["n"], len(c["x"])
    x = mk(c["x"], dt, (B, n))
    lo, hi, lv, hv, init = (mk(c[k], dt, (B,)) for k in ("lo", "hi", "lv", "hv", "init"))
    want = np.zeros((B, n), dtype=dt)
    sw = 0
    for b in range(B):
        y = init[b]
        for k in range(n):
            v = x[b, k]
            y2 = lv[b] if v < lo[b] else hv[b] if v > hi[b] else y
            sw += y2 != y
            want[b, k] = y = y2
    g = styled(u.hysteresis_relay, [x, lo, hi, lv, hv, init], c["sty"], outdt=dt)[0]
    what = f"hysteresis_relay[{dt}]({pl(x)}, {pl(lo)}, {pl(hi)}, {pl(lv)}, {pl(hv)}, {pl(init)})"
    if g.dtype != np.dtype(dt) or not same(g, want):
        raise Violation(f"{what} = {pl(g)}, simulation gives {pl(want)}")
    state, parts, at = init, [], 0
    for k in c["cut"] + [n]:
        p = call(u.hysteresis_relay, lay(x[:, at:k], c["sty"]["lay"][1]), lo, hi, lv, hv, state)
        parts.append(p)
        if k > at:
            state = p[:, -1]
        at = k
    if not same(np.concatenate(parts, axis=1), want):
        raise Violation(f"{what} in pieces cut at {c['cut']} gives {pl(np.concatenate(parts, axis=1))}, at once {pl(want)}")
    return "" if n < 2 else "switches" if sw else "holds"


def facets(tier):
    return [Facet("backlash", [src(lambda s, d=d: rescale(s, bcase(s, d), ["x", "db", "x0"]), 400) for d in "fdg"], bbody, 7000, 150000,
                  evals=lambda c: 2 * len(c["x"]), rule="at least two samples, labelled by what the output does"),
            Facet("backlash_sum", [src(lambda s, d=d: rescale(s, scase(s, d), s.pick([["x", "db", "x0"], ["w"]])), 400) for d in "fdg"], sbody, 5000, 100000,
                  evals=lambda c: 2 * len(c["x"]), rule="at least two samples and one operator"),
            Facet("relay", [src(lambda s, d=d: rescale(s, rcase(s, d), ["x", "lo", "hi"], ["lv", "hv", "init"]), 400) for d in "fdg"], rbody, 7000, 150000,
                  evals=lambda c: 2 * len(c["x"]), rule="at least two samples, labelled by whether the relay switches")] + longf.facets("P29")
