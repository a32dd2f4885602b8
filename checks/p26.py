"""mad, rmad, gini against the definition over all pairs."""
from fractions import Fraction
import numpy as np
import ufunclab as u
import longf
from core import Facet, Violation, call
from arr import mk, styled, pl, lay
from gen import src, NAN
from exact import fr, frs, EPS, near, mags

TECHNIQUE = "the exact sum of |x_i - x_j| over all pairs"
NOTE = "Types f, d, g, both normalisations, ties, negative values, nan, permutations, shifts and scaling, layouts and call styles."


def case(s, dt):
    n, B = s.rng(1, 11), s.rng(1, 3)
    rows = []
    for _ in range(B):
        el = mags(s, dt, {"f": 50, "d": 400, "g": 700}[dt], sign=s.chance(1, 2))
        x = [el() for _ in range(n)]
        if s.chance(1, 20):
            x[s.below(n)] = NAN
        rows.append(x)
    return {"dt": dt, "n": n, "sty": s.style(), "ub": s.bools(B), "perm": s.many(B, lambda: s.many(n, s.byte)),
            "rep": s.rng(2, 20) if s.chance(1, 40) else 1, "x": rows, "k": s.near0(6)}


def body(c):
    dt, B = c["dt"], len(c["x"])
    x = mk(c["x"], dt, (B, c["n"]))
    if c["rep"] > 1:
        x = np.concatenate([x] * c["rep"], axis=1)
    n = x.shape[1]
    ub = np.array(c["ub"])
    E = Fraction(EPS[dt])
    order = [sorted(range(n), key=lambda i: (c["perm"][b][i % c["n"]], i)) for b in range(B)]
    xp = np.stack([x[b][order[b]] for b in range(B)])
    two = np.dtype(dt).type(2) ** c["k"]
    lab = ""
    G = {}
    for nm in ("mad", "gini", "rmad"):
        f = getattr(u, nm)
        G[nm] = styled(f, [x, ub], c["sty"], outdt=dt)[0]
        gp = call(f, xp, ub)
        gs = call(f, x * two, ub)
        if G[nm].dtype != np.dtype(dt):
            raise Violation(f"{nm}[{dt}]: result {G[nm].dtype}")
        for b in range(B):
            g = G[nm][b]
            what = f"{nm}[{dt}]({pl(x[b])}, {ub[b]})"
            if np.isnan(x[b]).any():
                if g == g:
                    raise Violation(f"{what} = {g!s}, expected nan")
                lab = lab or "nan"
                continue
            if gp[b] != g and not (gp[b] != gp[b] and g != g):
                raise Violation(f"{what} = {g!s}, but {gp[b]!s} for the permuted {pl(xp[b])}")
            fs = frs(x[b])
            A = max(abs(f) for f in fs)
            S = sum((abs(p - q) for p in fs for q in fs), Fraction(0))
            den = n * (n - 1) if ub[b] else n * n
            if den == 0:
                continue
            # n terms, each of size n*A, added up
            be = 2 * n ** 3 * E * A
            if nm == "mad":
                if not near(g, S / den, 2 * be / den + 4 * E * S / den, dt):
                    raise Violation(f"{what} = {g!s}, the exact value is {float(S / den)!r}")
                if not near(gs[b], S / den * fr(two), (2 * be / den + 4 * E * S / den) * fr(two), dt):
                    raise Violation(f"{nm}[{dt}]({pl(x[b] * two)}, {ub[b]}) = {gs[b]!s}, expected {float(S / den * fr(two))!r}")
            else:
                T = sum(fs, Fraction(0))
                te = n * E * A * 2
                if abs(T) <= 100 * te:
                    if T == 0 and S == 0 and g == g:
                        raise Violation(f"{what} = {g!s}, expected nan for all zeros")
                    continue
                m = 2 if nm == "rmad" else 1
                v = Fraction(m) * S / 2 / ((n - 1 if ub[b] else n) * T)
                bud = m * be / abs((n - 1 if ub[b] else n) * T) * Fraction(11, 10) + abs(v) * (te / abs(T) * Fraction(11, 10) + 6 * E)
                for q, xx in ((g, x[b]), (gs[b], x[b] * two)):
                    if not near(q, v, bud, dt):
                        raise Violation(f"{nm}[{dt}]({pl(xx)}, {ub[b]}) = {q!s}, the exact value is {float(v)!r}")
            if n > 1:
                lab = "ties" if len(set(fs)) < n else lab if lab == "ties" else "distinct"
    for b in range(B):
        if not (G["rmad"][b] == 2 * G["gini"][b] or (G["gini"][b] != G["gini"][b] and G["rmad"][b] != G["rmad"][b])):
            raise Violation(f"rmad[{dt}]({pl(x[b])}, {ub[b]}) = {G['rmad'][b]!s} but gini is {G['gini'][b]!s}")
    return lab


def facets(tier):
    return [Facet("pairs", [src(lambda s, d=d: case(s, d), 700) for d in "fdg"], body, 9000, 250000,
                  evals=lambda c: 9 * len(c["x"]), rule="at least two elements, labelled by ties or nan")] + longf.facets("P26")
