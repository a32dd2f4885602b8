"""SOS filters against the exact difference equation, at once and in pieces."""
from fractions import Fraction
import numpy as np
import ufunclab as u
import longf
from core import Facet, Violation, call
from arr import mk, styled, pl, lay, same
from gen import src
from exact import fr, EPS, near, mags

TECHNIQUE = "the difference equation of each section in rational arithmetic (direct form, not the code's transposed form), with a running error bound; histories split at generated points"
NOTE = ("Types f, d, g; 0 to 4 sections, sparse and general coefficients, unstable filters, lengths 0 to 20, given and zero initial states, "
        "one to four pieces, linearity by superposition in the exact model; layouts and call styles (sosfilter_ic_contig only C-contiguous).")


def case(s, dt):
    n, m, B = s.rng(0, 12), s.rng(0, 4), s.rng(1, 2)
    if s.chance(1, 30):
        m = 9

    def coef(k):
        if k == 0:
            return s.near0(8) / 4
        if k == 1:
            return s.pick([0.0, 1.0, -1.0, 0.5])
        return float(np.float32((s.bits(3) / 2.0 ** 23 - 1) * 1.5))
    sos = []
    for _ in range(B):
        k = s.byte() % 3
        sos.append([[coef(k), coef(k), coef(k), 1.0, coef(k), coef(k)] for _ in range(m)])
    rows = []
    for _ in range(B):
        k = s.byte() % 3
        el = mags(s, dt, 20)
        r = [el() for _ in range(n)]
        if k == 1:
            r = [0.0] * n
            if n:
                r[s.below(n)] = 1.0
        rows.append(r)
    zi = s.many(B, lambda: s.many(m, lambda: [s.near0(16) / 4, s.near0(16) / 4]))
    if s.chance(1, 3):         # the filters are linear: nothing is special about any scale of the signal
        e = s.pick([-70, -40, -20, 40, 60])
        rows = [[[q * 2.0 ** e for q in v] if isinstance(v, list) else v * 2.0 ** e for v in r] for r in rows]
        zi = [[[q * 2.0 ** e for q in v] for v in r] for r in zi]
        if s.chance(1, 2):
            rows = [[v if s.chance(1, 2) else 0.0 for v in r] for r in rows]
    cut = sorted(s.rng(0, n) for _ in range(s.rng(1, 3)))
    return {"dt": dt, "n": n, "m": m, "sty": s.style(), "sos": sos, "zi": zi,
            "cut": cut, "x": rows}


def exact(sos, x, zi):
    """-> y, zf and bounds on the accumulated rounding error in units of eps (all Fractions).
    Section k with input v, output w:
        w[i] = b0 v[i] + b1 v[i-1] + b2 v[i-2] - a1 w[i-1] - a2 w[i-2]  (+ initial state in w[0], w[1])
    """
    v, ev = list(x), [Fraction(0)] * len(x)
    zf, ez = [], []
    for k in range(len(sos)):
        b0, b1, b2, _, a1, a2 = sos[k]
        w, ew = [], []
        n = len(v)

        def at(L, i):
            return L[i] if i >= 0 else Fraction(0)
        for i in range(n):
            ini = zi[k][i] if i < 2 else Fraction(0)
            t = [b0 * v[i], b1 * at(v, i - 1), b2 * at(v, i - 2), -a1 * at(w, i - 1), -a2 * at(w, i - 2), ini]
            w.append(sum(t, Fraction(0)))
            ew.append(4 * sum((abs(q) for q in t), Fraction(0)) + abs(b0) * ev[i] + abs(b1) * at(ev, i - 1) + abs(b2) * at(ev, i - 2)
                      + abs(a1) * at(ew, i - 1) + abs(a2) * at(ew, i - 2))
        # state after the last sample
        z0 = [b1 * at(v, n - 1), b2 * at(v, n - 2), -a1 * at(w, n - 1), -a2 * at(w, n - 2), zi[k][n] if n < 2 else Fraction(0)]
        z1 = [b2 * at(v, n - 1), -a2 * at(w, n - 1), zi[k][1] if n < 1 else Fraction(0)]
        zf.append([sum(z0, Fraction(0)), sum(z1, Fraction(0))])
        e0 = abs(b1) * at(ev, n - 1) + abs(b2) * at(ev, n - 2) + abs(a1) * at(ew, n - 1) + abs(a2) * at(ew, n - 2)
        e1 = abs(b2) * at(ev, n - 1) + abs(a2) * at(ew, n - 1)
        ez.append([4 * sum((abs(q) for q in z0), Fraction(0)) + e0, 4 * sum((abs(q) for q in z1), Fraction(0)) + e1])
        v, ev = w, ew
    return v, ev, zf, ez


def body(c):
    dt, n, m, B = c["dt"], c["n"], c["m"], len(c["x"])
    x, sos, zi = mk(c["x"], dt, (B, n)), mk(c["sos"], dt, (B, m, 6)), mk(c["zi"], dt, (B, m, 2))
    E = Fraction(EPS[dt]) * 2
    T = np.vectorize(fr, otypes=[object])
    fx, fs, fz = T(x) if n else x.astype(object), T(sos) if m else sos.astype(object), T(zi) if m else zi.astype(object)
    zero = np.zeros_like(zi)
    ref, ref0 = [], []
    for b in range(B):
        ref.append(exact(list(fs[b]), list(fx[b]), [list(r) for r in fz[b]]))
        ref0.append(exact(list(fs[b]), list(fx[b]), [[Fraction(0)] * 2 for _ in range(m)]))

    def check(y, zf, ref, what):
        for b in range(B):
            ye, ey, ze, ez = ref[b]
            for i in range(n):
                if not near(y[b, i], ye[i], E * ey[i] * 2, dt):
                    raise Violation(f"{what}[{dt}] sos={pl(sos[b])} x={pl(x[b])} zi={pl(zi[b])}: y[{i}] = {y[b, i]!s}, "
                                    f"the difference equation gives {float(ye[i])!r}")
            if zf is None:
                continue
            for k in range(m):
                for j in range(2):
                    if not near(zf[b, k, j], ze[k][j], E * ez[k][j] * 2, dt):
                        raise Violation(f"{what}[{dt}] sos={pl(sos[b])} x={pl(x[b])} zi={pl(zi[b])}: zf[{k},{j}] = "
                                        f"{zf[b, k, j]!s}, expected {float(ze[k][j])!r}")
    y0 = styled(u.sosfilter, [sos, x], c["sty"], outdt=dt)[0]
    check(y0, None, ref0, "sosfilter")
    y1, z1 = styled(u.sosfilter_ic, [sos, x, zi], c["sty"], outdt=dt + dt)
    check(y1, z1, ref, "sosfilter_ic")
    y2, z2 = call(u.sosfilter_ic_contig, sos.copy(), x.copy(), zi.copy())
    check(y2, z2, ref, "sosfilter_ic_contig")
    if dt != y0.dtype.char or dt != y1.dtype.char or dt != z2.dtype.char:
        raise Violation(f"sosfilter[{dt}]: result {y0.dtype}, {y1.dtype}, {z2.dtype}")
    for f in (u.sosfilter_ic, u.sosfilter_ic_contig):
        state, parts, at = zi, [], 0
        for k in c["cut"] + [n]:
            xs = x[:, at:k].copy()
            if f is u.sosfilter_ic:
                p, state = call(f, lay(sos, c["sty"]["lay"][0]), lay(xs, c["sty"]["lay"][1]), lay(state, c["sty"]["lay"][2]))
            else:
                p, state = call(f, sos, xs, np.ascontiguousarray(state))
            parts.append(p)
            at = k
        check(np.concatenate(parts, axis=1), state, ref, f"{f.__name__} in pieces cut at {c['cut']}")
    return "" if n < 2 or not m else "%d sections" % m


def facets(tier):
    return [Facet("filter", [src(lambda s, d=d: case(s, d), 700) for d in "fdg"], body, 4000, 120000,
                  evals=lambda c: 5 * len(c["x"]), rule="at least two samples and one section")] + longf.facets("P30")
