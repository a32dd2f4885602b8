"""The minimum / maximum family and peaktopeak against Python loops."""
import numpy as np
import ufunclab as u
import longf
from core import Facet, Violation, call
from arr import mk, styled, same, pl
from gen import vec, src
from p18 import items

TECHNIQUE = "a literal Python loop over the elements (exact integers, fractions and floats)"
NOTE = "All dtypes including object, ties, extremes of the integer types, infinities, 9 layouts, 7 call styles, lengths 1 to about 40."
DTS = list("bBhHiIlLqQfdg")
UNS = {"b": "B", "h": "H", "i": "I", "l": "L"}


def ref(xs):
    imin = imax = 0
    for i in range(1, len(xs)):
        if xs[i] < xs[imin]:
            imin = i
        if xs[i] > xs[imax]:
            imax = i
    return imin, imax


def compare(name, got, want, dt, x):
    if len(got) != len(want):
        raise Violation(f"{name} returned {len(got)} arrays")
    for g, (w, wdt) in zip(got, want):
        if wdt == "O":
            ok = all(a is b or a == b for a, b in zip(g.ravel(), w.ravel()))
        else:
            ok = g.dtype == np.dtype(wdt) and same(g, w)
        if not ok:
            raise Violation(f"{name}[{dt}]({pl(x)}) = {pl(g)} ({g.dtype}), expected {pl(w)} ({wdt})")


def expect(x, idx, dt):
    B = len(x)
    imin = np.array([i for i, _ in idx], dtype=np.intp)
    imax = np.array([j for _, j in idx], dtype=np.intp)
    vmin = np.empty(B, dtype=x.dtype)
    vmax = np.empty(B, dtype=x.dtype)
    for b in range(B):
        vmin[b], vmax[b] = x[b, imin[b]], x[b, imax[b]]
    st = lambda a, b: np.stack([a, b], axis=-1)
    return {"argmin": ([(imin, "l")], "l"), "argmax": ([(imax, "l")], "l"),
            "minmax": ([(st(vmin, vmax), dt)], dt), "argminmax": ([(st(imin, imax), "l")], "l"),
            "min_argmin": ([(vmin, dt), (imin, "l")], dt + "l"), "max_argmax": ([(vmax, dt), (imax, "l")], dt + "l")}


def body(c):
    dt = c["dt"]
    x = mk(c["x"], dt, (len(c["x"]), c["n"]))
    idx = [ref(items(x[b])) for b in range(len(x))]
    for name, (want, od) in expect(x, idx, dt).items():
        compare(name, styled(getattr(u, name), [x], c["sty"], outdt=od), want, dt, x)
    if dt not in "qQ":
        wdt = UNS.get(dt, dt)
        with np.errstate(all="ignore"):
            if dt in "fdg":
                w = np.array([x[b, j] - x[b, i] for b, (i, j) in enumerate(idx)], dtype=wdt)
            else:
                w = np.array([int(x[b, j]) - int(x[b, i]) for b, (i, j) in enumerate(idx)], dtype=wdt)
        compare("peaktopeak", styled(u.peaktopeak, [x], c["sty"], outdt=wdt), [(w, wdt)], dt, x)
    if all(i == j for i, j in idx):
        return "constant"
    return "extremes after the first element" if any(min(i, j) > 0 for i, j in idx) else "extreme at the first element"


def ocase(s):
    n, B = s.rng(1, 8), s.rng(1, 2)
    return {"n": n, "sty": s.style(), "x": s.many(B, lambda: s.many(n, s.obj))}


def obody(c):
    x = mk(c["x"], "O", (len(c["x"]), c["n"]))
    idx = [ref(list(x[b])) for b in range(len(x))]
    for name, (want, od) in expect(x, idx, "O").items():
        compare(name, styled(getattr(u, name), [x], c["sty"], outdt=od), want, "O", x)
    w = np.empty(len(x), dtype=object)
    for b, (i, j) in enumerate(idx):
        w[b] = x[b, j] - x[b, i]
    compare("peaktopeak", styled(u.peaktopeak, [x], c["sty"], outdt="O"), [(w, "O")], "O", x)
    return "object"


def facets(tier):
    return [Facet("numeric", [vec([d], nmin=1, inf=True) for d in DTS], body, 20000, 400000, evals=lambda c: 7 * len(c["x"]),
                  rule="every case, labelled by where the extremes are"),
            Facet("object", src(ocase), obody, 4000, 80000, rule="every case", evals=lambda c: 7 * len(c["x"]))] + longf.facets("P19")
