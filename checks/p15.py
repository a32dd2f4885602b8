"""Step functions, deadzone and trapezoid pulse against exact rational evaluation."""
import numpy as np
from mpmath import mp, mpf
import ufunclab as u
import mpx
import longf
from core import Facet, Violation, call
from arr import mk
from gen import src
from sf import (Fn, points_facet, special_facet, logu, uni, near, ints, mix, args, just, REL, NAN, INF, fin, tiny)

TECHNIQUE = "the documented piecewise formulas in exact arithmetic (mpmath), plus monotonicity and range"
NOTE = ("Arguments on, next to and between the break points, equal break points, unordered break points (nan), values of "
        "all magnitudes up to 2**60; nan arguments are not covered.")
V = mix(ints(-12, 12, 4), uni(-3, 3), logu(-30, 30, 0), logu(-60, 60, 0), just(0.0))


def num(v, dt):
    return mk([v], dt, (1,))[0]


def plus(v, w, dt):
    """a value representable in dt"""
    return num(v, dt) + num(w, dt)


def out(v, dt):
    """NumPy scalar -> plain value"""
    if dt == "g":
        hi = float(v)
        return [hi, float(v - np.longdouble(hi))]
    return float(v)


def between(s, a, b, dt):
    """x in and around [a, b]: the ends, their neighbours, inside at all distances, outside"""
    T = np.dtype(dt).type
    k = s.byte() % 9
    if k == 0:
        return a
    if k == 1:
        return b
    if k == 2:
        return np.nextafter(s.pick([a, b]), T(s.pick([-INF, INF])))
    if k == 3:
        return num(V(s, dt), dt)
    if k == 4:
        return s.pick([a - abs(b - a) * T(0.5) - 1, b + abs(b - a) * T(0.5) + 1])
    if k == 5:
        return a + (b - a) * T(2.0 ** -s.rng(1, 60))
    if k == 6:
        return b - (b - a) * T(2.0 ** -s.rng(1, 60))
    return a + (b - a) * T(s.bits(4) / 2.0 ** 32)


def brk(s, dt):
    a = num(V(s, dt), dt)
    k = s.byte() % 10
    if k == 0:
        return a, a
    if k == 1:
        return a, num(V(s, dt), dt)          # either order
    if k == 2:
        return a, np.nextafter(a, np.dtype(dt).type(INF))
    d = abs(num(V(s, dt), dt))
    return a, a + d


def p_step(s, dt):
    a = num(V(s, dt), dt)
    x = between(s, a, a, dt) if s.byte() % 2 else num(V(s, dt), dt)
    return [out(x, dt), out(a, dt), V(s, dt), V(s, dt), V(s, dt)]


def p_ramp(s, dt):
    a, b = brk(s, dt)
    fa = V(s, dt)
    return [out(between(s, a, b, dt), dt), out(a, dt), out(b, dt), fa, fa if s.chance(1, 10) else V(s, dt)]


def p_dead(s, dt):
    a, b = brk(s, dt)
    if a > b:
        a, b = b, a
    return [out(between(s, a, b, dt), dt), out(a, dt), out(b, dt)]


def p_trap(s, dt):
    v = [num(V(s, dt), dt) for _ in range(4)]
    if not s.chance(1, 12):
        v.sort()
    if s.chance(1, 6):
        i = s.rng(0, 2)
        v[i + 1] = v[i]
    i = s.rng(0, 2)
    x = between(s, v[i], v[i + 1], dt)
    return [out(x, dt)] + [out(t, dt) for t in v] + [V(s, dt)]


def step(x, a, lo, fa, hi):
    return lo if x < a else hi if x > a else fa


def ramp(poly):
    def f(x, a, b, fa, fb):
        if a > b:
            return "nan"
        if x <= a:
            return fa
        if x >= b:
            return fb
        with mp.workprec(400):
            t = (x - a) / (b - a)
            return fa + (fb - fa) * poly(t)
    return f


def ramp_budget(v, E, x, a, b, fa, fb):
    if x <= a or x >= b:
        return 0
    # relative to the distance from fa, when that is the larger part
    return E * min(12 * max(abs(fa), abs(fb)), 4 * abs(fa) + 16 * abs(v - fa)) + 4 * abs(fb - fa) * tiny(E)


def lin_budget(v, E, x, a, b, fa, fb):
    if x <= a or x >= b:
        return 0
    return E * min(12 * max(abs(fa), abs(fb)), 5 * abs(fa) + 5 * abs(fb) * (x - a) / (b - a)) + 4 * (abs(fa) + abs(fb)) * tiny(E)


def dead(x, a, b):
    return x - a if x < a else x - b if x > b else mpf(0)


def trap(x, a, b, c, d, amp):
    if not a <= b <= c <= d:
        return "nan"
    if x <= a or x >= d:
        return mpf(0)
    if b <= x <= c:
        return amp
    with mp.workprec(400):
        return amp * (x - a) / (b - a) if x < b else amp * (d - x) / (d - c)


def trap_budget(v, E, x, a, b, c, d, amp):
    return 0 if v == 0 or b <= x <= c else 3 * E * abs(v) + 2 * abs(amp) * tiny(E) * E


RS = [[0, 1, 2], [3, 4]]
F = [Fn("step", u.step, p_step, step, lambda v, E, *a: 0, scale=[[0, 1], [2, 3, 4]]),
     Fn("linearstep", u.linearstep, p_ramp, ramp(lambda t: t), lin_budget, scale=RS),
     Fn("smoothstep3", u.smoothstep3, p_ramp, ramp(lambda t: t * t * (3 - 2 * t)), ramp_budget, scale=RS),
     Fn("smoothstep5", u.smoothstep5, p_ramp, ramp(lambda t: t ** 3 * (t * (6 * t - 15) + 10)), lambda *q: 3 * ramp_budget(*q), scale=RS),
     Fn("deadzone", u.deadzone, p_dead, dead, lambda v, E, *a: E * abs(v) * mpf("0.51"), scale=[[0, 1, 2]]),
     Fn("trapezoid_pulse", u.trapezoid_pulse, p_trap, trap, trap_budget, scale=[[0, 1, 2, 3, 4], [5]])]


# ---------------------------------------------------------------- inverse
def inv_case(dt):
    def one(s):
        a, b = brk(s, dt)
        if s.byte() % 16:
            a, b = min(a, b), max(a, b)
        fa, fb = num(V(s, dt), dt), num(V(s, dt), dt)
        y = between(s, fa, fb, dt)
        return [out(y, dt), out(a, dt), out(b, dt), out(fa, dt), out(fb, dt)]
    return src(lambda s: {"dt": dt, "p": [one(s) for _ in range(12)]}, 1000)


def inv_body(c):
    dt = c["dt"]
    cols = [mk([p[j] for p in c["p"]], dt, (len(c["p"]),)) for j in range(5)]
    got = call(u.invsmoothstep3, *cols)
    E = mpx.eps(dt)
    n = 0
    for i in range(len(got)):
        y, a, b, fa, fb = [mpx.tomp(q[i]) for q in cols]
        g = mpx.tomp(got[i])
        where = f"invsmoothstep3{tuple(str(q[i]) for q in cols)} = {got[i]!s}"
        small = {"dt": dt, "p": [c["p"][i]]}
        if fa == fb or not min(fa, fb) <= y <= max(fa, fb):
            if not mp.isnan(g):
                raise Violation(where + ", expected nan", case=small)
            continue
        if a > b:
            continue
        if y == fa or y == fb:
            if g != (a if y == fa else b):
                raise Violation(where + ", expected the end point", case=small)
            continue
        if mp.isnan(g) or not a - 2 * E * (abs(a) + abs(b)) <= g <= b + 2 * E * (abs(a) + abs(b)):
            raise Violation(where + ": outside [a, b]", case=small)
        if a == b:
            continue
        n += 1
        with mp.workprec(400):
            t = min(max((g - a) / (b - a), mpf(0)), mpf(1))
            back = fa + (fb - fa) * t * t * (3 - 2 * t)
            # x has to be rounded to the grid of a and b
            dx = (abs(a) + abs(b)) * E * 2 + 4 * tiny(E) * E
            tt = dx / (b - a)
            slope = 6 * (t * (1 - t) + tt) * tt
            bud = E * 12 * (abs(fa) + abs(fb)) + abs(fb - fa) * min(slope, mpf(1))
        if abs(back - y) > bud:
            raise Violation(where + f": smoothstep3 of it is {mp.nstr(back, 20)} "
                            f"({float(abs(back - y) / bud):.3g} times the budget)", case=small)
    return "interior" if n else "ends"


# ---------------------------------------------------------------- monotone between the end values
def mono_case(s):
    dt = s.pick("dfg")
    a, b = brk(s, dt)
    a, b = min(a, b), max(a, b)
    return {"dt": dt, "a": out(a, dt), "b": out(b, dt), "fa": V(s, dt), "fb": V(s, dt),
            "x": [out(between(s, a, b, dt), dt) for _ in range(24)]}


def mono_body(c):
    dt = c["dt"]
    x = np.sort(mk(c["x"], dt, (len(c["x"]),)))
    a, b, fa, fb = [num(c[k], dt) for k in ("a", "b", "fa", "fb")]
    E = np.finfo(dt).eps
    slack = 40 * E * max(abs(fa), abs(fb))
    sg = 1 if fb >= fa else -1
    for n in ("linearstep", "smoothstep3", "smoothstep5"):
        y = call(getattr(u, n), x, a, b, fa, fb)
        if not (np.diff(y) * sg >= -slack).all():
            raise Violation(f"{n}({x!r}, {a!s}, {b!s}, {fa!s}, {fb!s}) = {y!r} is not monotone")
        if not ((y >= min(fa, fb) - slack) & (y <= max(fa, fb) + slack)).all():
            raise Violation(f"{n}({x!r}, {a!s}, {b!s}, {fa!s}, {fb!s}) = {y!r} leaves the range of the end values")
    return "monotone"


def facets(tier):
    rows = [("invsmoothstep3", u.invsmoothstep3, "fdg", a, e) for a, e in
            [([0.0, 0.0, 1.0, 0.0, 1.0], 0.0), ([1.0, 0.0, 1.0, 0.0, 1.0], 1.0), ([2.0, 0.0, 1.0, 0.0, 1.0], NAN),
             ([-0.5, 0.0, 1.0, 0.0, 1.0], NAN), ([1.0, 0.0, 1.0, 1.0, 1.0], NAN), ([3.0, 5.0, 9.0, 3.0, -1.0], 5.0)]]
    rows += [("linearstep", u.linearstep, "fdg", a, e) for a, e in
             [([-INF, 0.0, 1.0, 2.0, 5.0], 2.0), ([INF, 0.0, 1.0, 2.0, 5.0], 5.0), ([0.5, 0.0, 1.0, 2.0, 5.0], 3.5),
              ([0.5, 1.0, 0.0, 2.0, 5.0], NAN)]]
    return [points_facet(F, 9000, 300000),
            Facet("inverse", [inv_case(d) for d in "fdg"], inv_body, 4000, 150000, evals=lambda c: len(c["p"]),
                  rule="every batch: y at, next to, between and outside fa and fb"),
            Facet("monotone", src(mono_case, 900), mono_body, 4000, 150000, evals=lambda c: 3 * len(c["x"]),
                  rule="every batch: sorted x"),
            special_facet("special", rows)] + longf.ufacets("P15")
