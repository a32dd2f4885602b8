"""percentileofscore by exact counting."""
from fractions import Fraction
import numpy as np
import ufunclab as u
import longf
from core import Facet, Violation, call
from arr import mk, styled, pl, lay
from gen import vec
from p18 import items

TECHNIQUE = "exact counting in Python, for all four kinds, compared with the result rounded at most a few times"
NOTE = "All dtypes, ties with the score, scores outside the data, scores and kinds broadcast, undefined kinds, layouts and call styles."
DTS = list("bBhHiIlLfd")
KN = ["KIND_RANK", "KIND_WEAK", "KIND_STRICT", "KIND_MEAN"]


def extra(s, dt, n, B):
    return {"v": s.many(B, lambda: s.value(dt, inf=True)), "pick": s.many(B, lambda: s.rng(0, 40) - 1),
            "k": s.many(B, lambda: s.pick([0, 1, 2, 3, 0, 1, 2, 3, 0, 1, 2, 3, 4, -1, 2 ** 32, 2 ** 32 + 1, -2 ** 63, 7]))}


def ref(x, v, kind):
    n = len(x)
    less = sum(1 for e in x if e < v)
    eq = sum(1 for e in x if e == v)
    strict, weak = Fraction(100 * less, n), Fraction(100 * (less + eq), n)
    if kind == 0:
        return (strict + weak + (Fraction(100, n) if eq else 0)) / 2
    return {1: weak, 2: strict, 3: (strict + weak) / 2}.get(kind)


def agree(g, w):
    if w is None:
        return g != g
    return g == g and abs(Fraction(float(g)) - w) <= Fraction(1, 2 ** 50) * w


def body(c):
    dt, n, B = c["dt"], c["n"], len(c["x"])
    x = mk(c["x"], dt, (B, n))
    v = mk(c["v"], dt, (B,))
    for b, k in enumerate(c["pick"]):
        if 0 <= k < n:
            v[b] = x[b, k]
    code = [getattr(u.op, KN[k]) if 0 <= k < 4 else k for k in c["k"]]
    if code != c["k"]:
        # undefined codes stay undefined only if the enum is 0..3
        code = [getattr(u.op, KN[k % 4]) for k in c["k"]]
    kind = np.array(code, dtype=np.int64)
    xs, vs = [items(x[b]) for b in range(B)], items(v)
    want = [ref(xs[b], vs[b], c["k"][b]) for b in range(B)]
    g = styled(u.percentileofscore, [x, v, kind], c["sty"], outdt="d")[0]
    if g.dtype != np.float64 or not all(agree(a, w) for a, w in zip(g, want)):
        raise Violation(f"percentileofscore[{dt}]({pl(x)}, {pl(v)}, {c['k']}) = {pl(g)}, expected "
                        f"{[None if w is None else float(w) for w in want]}")
    ks = np.array([getattr(u.op, k) for k in KN])
    g2 = call(u.percentileofscore, lay(x[:, None, None, :], c["sty"]["lay"][3]), lay(v[:, None], c["sty"]["lay"][4]), ks)
    for i in range(B):
        for j in range(B):
            for k in range(4):
                if not agree(g2[i, j, k], ref(xs[i], vs[j], k)):
                    raise Violation(f"percentileofscore[{dt}]({pl(x[i])}, {vs[j]!r}, {KN[k]}) = {g2[i, j, k]!r}, "
                                    f"expected {float(ref(xs[i], vs[j], k))!r}")
    eq = [sum(1 for e in xs[b] if e == vs[b]) for b in range(B)]
    return "ties" if max(eq) > 1 else "score occurs" if max(eq) == 1 else "score does not occur"


def facets(tier):
    return [Facet("counts", [vec([d], nmin=1, nmax=14, inf=True, extra=extra) for d in DTS], body, 12000, 300000,
                  evals=lambda c: len(c["x"]) + 4 * len(c["x"]) ** 2,
                  rule="every case, labelled by how often the score occurs")] + longf.facets("P22")
