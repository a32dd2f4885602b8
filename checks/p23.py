"""kbnsum against exact rational summation."""
from fractions import Fraction
import numpy as np
import ufunclab as u
import longf
from core import Facet, Violation, call
from arr import mk, styled, pl, lay
from gen import src, vec, NAN, INF
from exact import fr, frs, EPS, near, mags, TINYF

TECHNIQUE = "the exact rational sum, with the error bound of Kahan-Babuska-Neumaier summation"
NOTE = "All three types, cancelling pairs in any order, widely spread magnitudes, nan and infinities at any position, long vectors, layouts and call styles."


def gen_vec(s, dt, n):
    """n values, built so that large ones cancel"""
    rd = dt.lower()
    el = mags(s, rd, 100)
    k = s.byte() % 4
    x = [el() for _ in range(n)]
    if k >= 1 and n > 1:
        neg = lambda v: [-v[0], -v[1]] if isinstance(v, list) else -v
        for _ in range(s.rng(1, n)):
            i, j = s.below(n), s.below(n)
            if i != j:
                x[j] = neg(x[i])
    return x


def case(s, dt):
    n, B = s.rng(0, 14), s.rng(1, 3)
    rep = s.rng(2, 60) if s.chance(1, 24) else 1
    c = {"dt": dt, "n": n, "sty": s.style(), "rep": rep, "x": [gen_vec(s, dt, n) for _ in range(B)]}
    if dt in "FDG":
        c["y"] = [gen_vec(s, dt, n) for _ in range(B)]
    return c


def check_sum(g, xs, dt, what):
    fs = frs(xs)
    S, A, n = sum(fs, Fraction(0)), sum((abs(f) for f in fs), Fraction(0)), len(fs)
    E = Fraction(EPS[dt])
    b = E * abs(S) + 4 * n * n * E * E * A
    if not near(g, S, b, dt):
        raise Violation(f"{what} = {g!s}, the exact sum is {float(S)!r}, the error {float(abs(fr(g) - S)) if np.isfinite(g) else g!r}"
                        f" exceeds {float(b):.3g}")
    return S, A


def body(c):
    dt, n, B = c["dt"], c["n"], len(c["x"])
    rd = dt.lower()
    x = mk(c["x"], rd, (B, n))
    if "y" in c:
        z = np.empty((B, n), dtype=dt)
        z.real, z.imag = x, mk(c["y"], rd, (B, n))
        x = z
    if c["rep"] > 1:
        x = np.concatenate([x] * c["rep"], axis=1)
    g = styled(u.kbnsum, [x], c["sty"], outdt=dt)[0]
    if g.dtype != np.dtype(dt):
        raise Violation(f"kbnsum[{dt}]: result {g.dtype}")
    lab = ""
    for b in range(B):
        for part in (("real", "imag") if dt in "FDG" else ("real",)):
            S, A = check_sum(getattr(g[b], part), getattr(x[b], part), rd, f"kbnsum[{dt}]({pl(x[b])}).{part}")
            if A and x.shape[1] > 1:
                lab = "cancelling" if abs(S) * 1000 < A else lab or "plain"
        # order does not matter beyond the same bound
        p = x[b][::-1]
        r = call(u.kbnsum, p)
        for part in (("real", "imag") if dt in "FDG" else ("real",)):
            check_sum(getattr(r, part), getattr(p, part), rd, f"kbnsum[{dt}]({pl(p)}).{part}")
    return lab


def nonfinite(c):
    dt = c["dt"]
    B, n = len(c["x"]), c["n"]
    x = mk(c["x"], dt, (B, n))
    g = styled(u.kbnsum, [x], c["sty"], outdt=dt)[0]
    lab = ""
    for b in range(B):
        if np.isfinite(x[b]).all():
            continue
        nan = np.isnan(x[b]).any() or ((x[b] == INF).any() and (x[b] == -INF).any())
        want = NAN if nan else INF if (x[b] == INF).any() else -INF
        if not (g[b] == want or (nan and g[b] != g[b])):
            raise Violation(f"kbnsum[{dt}]({pl(x[b])}) = {g[b]!s}, expected {want}")
        lab = "nan" if nan else "infinite"
    return lab


def nf_case(s, dt):
    n, B = s.rng(1, 10), s.rng(1, 3)
    el = s.pick([lambda: s.pick([1.0, -2.0, NAN, INF, -INF, 0.0]), lambda: s.pick([1.0, 3.0, INF]), lambda: s.pick([1.0, -INF]),
                 lambda: s.pick([1.0, 4.0, 5.0, 7.5, 0.0, 2.0, 1e3, NAN]), lambda: s.pick([1.0, 5.0, 2.0, 3.0, 2.5, 1e9, INF, -INF])])
    return {"dt": dt, "n": n, "sty": s.style(), "x": [[el() for _ in range(n)] for _ in range(B)]}


def facets(tier):
    return [Facet("finite", [src(lambda s, d=d: case(s, d), 700) for d in "fdg"], body, 12000, 300000,
                  evals=lambda c: 2 * len(c["x"]) * (2 if "y" in c else 1),
                  rule="at least two elements, not all zero; 'cancelling' when the sum is below a thousandth of the sum of magnitudes"),
            Facet("nonfinite", [src(lambda s, d=d: nf_case(s, d)) for d in "fdg"], nonfinite, 4000, 60000,
                  rule="nan or an infinity occurs")] + longf.facets("P23")
