"""next_*, nextn_*, issnan and nan_to_num, bit for bit."""
import numpy as np
import ufunclab as u
import longf
from core import Facet, Violation, call
from arr import styled, same
from gen import src

TECHNIQUE = "integer arithmetic on the bit patterns (next float = next integer in sign-magnitude order)"
NOTE = ("Random and structured bit patterns of float16/32/64 and the 80-bit longdouble: nans with any payload, subnormals, "
        "zeros, powers of two, the largest values and infinities.")
W = {"e": (2, 10, 5), "f": (4, 23, 8), "d": (8, 52, 11)}
UI = {"e": np.uint16, "f": np.uint32, "d": np.uint64}


def bits_case(s, dt):
    n, mb, eb = W[dt]
    k = s.byte() % 8
    sign = s.byte() & 1
    full = (1 << eb) - 1
    if k == 0:
        e, m = s.rng(0, full), 0                             # powers of two, zero, inf
    elif k == 1:
        e, m = s.rng(0, full - 1), (1 << mb) - 1             # largest of each binade
    elif k == 2:
        e, m = 0, s.bits(7) & ((1 << mb) - 1)                # subnormals
    elif k == 3:
        e, m = full, s.bits(7) & ((1 << mb) - 1)             # nans
    elif k == 4:
        e, m = full, 1 << s.rng(0, mb - 1)                   # single payload bits
    elif k == 5:
        e, m = s.pick([0, 1, full - 1, full]), s.pick([0, 1, 2, (1 << mb) - 1, (1 << mb) - 2])
    elif k == 6:
        e, m = full, (1 << s.rng(0, mb - 1)) | (1 << s.rng(0, mb - 1))
    else:
        e, m = s.rng(0, full), s.bits(7) & ((1 << mb) - 1)
    return (sign << (mb + eb)) | (e << mb) | m


def step(b, dt, up):
    """bit pattern of the adjacent value; nan stays a nan (None)"""
    n, mb, eb = W[dt]
    S = 1 << (mb + eb)
    mag, neg = b & (S - 1), bool(b & S)
    INFB = ((1 << eb) - 1) << mb
    if mag > INFB:
        return None
    v = -mag if neg else mag
    if up:
        if v == INFB:
            return b
        v += 1
    else:
        if v == -INFB:
            return b
        v -= 1
    if v == 0:
        return S if neg else 0          # zero keeps the sign of the side it came from
    return (-v) | S if v < 0 else v


def isnanb(b, dt):
    n, mb, eb = W[dt]
    return b & ((1 << (mb + eb)) - 1) > ((1 << eb) - 1) << mb


def next_case(dt):
    return src(lambda s: {"dt": dt, "b": [bits_case(s, dt) for _ in range(16)], "n": s.rng(0, 12), "sty": s.style(),
                          "ax": s.rng(0, 3), "o": s.byte() & 1}, 400)


def next_body(c):
    dt = c["dt"]
    bits = c["b"]
    x = np.array(bits, dtype=UI[dt]).view(dt)
    for nm, up in (("next_less", False), ("next_greater", True)):
        g = styled(getattr(u, nm), [x], c["sty"], outdt=dt)[0]
        gb = np.ascontiguousarray(g).astype(dt).view(UI[dt]).tolist()
        for i, b in enumerate(bits):
            w = step(b, dt, up)
            if w is None and isnanb(gb[i], dt) or w == gb[i]:
                continue
            raise Violation(f"{nm}[{dt}] of bit pattern {b:#x} ({x[i]!r}) gives {gb[i]:#x} ({g[i]!r}), expected "
                            + ("a nan" if w is None else f"{w:#x}"), case=dict(c, b=[b]))
        nm = nm.replace("next", "nextn")
        n = c["n"]
        xx = x.reshape(2, -1) if len(x) % 2 == 0 else x.reshape(1, -1)
        axis = [-1, 0, 1, 2][c["ax"]]
        shp = list(xx.shape)
        shp.insert(axis if axis >= 0 else 2, n)
        kw = {"axis": axis} if c["ax"] else {}
        if c["o"]:
            kw["out"] = np.full(shp, 7, dtype=dt)
        g = call(getattr(u, nm), xx, n, **kw)
        if g.dtype != np.dtype(dt) or g.shape != tuple(shp) or (c["o"] and g is not kw["out"]):
            raise Violation(f"{nm}(shape {xx.shape}, n={n}, axis={axis}) has dtype {g.dtype}, shape {g.shape}")
        gb = np.ascontiguousarray(np.moveaxis(g, axis, -1)).view(UI[dt]).reshape(len(bits), n) if n else \
            np.zeros((len(bits), 0), dtype=UI[dt])
        for i, b in enumerate(bits):
            w = b
            for j in range(n):
                w = step(w, dt, up) if w is not None else None
                v = int(gb[i, j])
                if not (w is None and isnanb(v, dt) or w == v):
                    raise Violation(f"{nm}[{dt}]({x[i]!r}, {n}, axis={axis}) element {j} is {v:#x}, expected "
                                    + ("a nan" if w is None else f"{w:#x}"))
    return "bits " + dt


def snan_body(c):
    dt = c["dt"]
    n, mb, eb = W[dt]
    x = np.array(c["b"], dtype=UI[dt]).view(dt)
    sty = c["sty"]
    if sty["mode"] in ("single", "first"):
        sty = dict(sty, mode="batch")       # scalar access may quieten a signaling nan
    if any(k % 9 == 6 for k in sty["lay"]):
        sty = dict(sty, lay=[0] * 6)
    g = styled(u.issnan, [x], sty, outdt="?")[0]
    if g.dtype != np.bool_:
        raise Violation(f"issnan gives {g.dtype}")
    for i, b in enumerate(c["b"]):
        w = isnanb(b, dt) and not b >> (mb - 1) & 1
        if bool(g[i]) != w:
            raise Violation(f"issnan[{dt}] of bit pattern {b:#x} is {bool(g[i])}", case=dict(c, b=[b]))
    # nan_to_num
    if dt != "e":
        r = np.array([c["r"]], dtype=UI[dt]).view(dt)
        sty = c["sty"]
        if sty["mode"] in ("single", "first"):
            sty = dict(sty, mode="batch")
        rr = np.repeat(r.view(UI[dt]), len(x)).view(dt)
        g = styled(u.nan_to_num, [x, rr], sty, outdt=dt)[0]
        gb = np.ascontiguousarray(g).astype(dt).view(UI[dt]).tolist()
        for i, b in enumerate(c["b"]):
            if isnanb(b, dt):
                ok = gb[i] == c["r"] or isnanb(gb[i], dt) and isnanb(c["r"], dt)
            else:
                ok = gb[i] == b
            if not ok:
                raise Violation(f"nan_to_num[{dt}]({b:#x}, {c['r']:#x}) gives bit pattern {gb[i]:#x}", case=dict(c, b=[b]))
    return "bits " + dt


def snan_case(dt):
    return src(lambda s: {"dt": dt, "b": [bits_case(s, dt) for _ in range(24)], "r": bits_case(s, dt), "sty": s.style()}, 500)


# ---------------------------------------------------------------- longdouble
def ld(sign, e, m):
    """80-bit extended: sign, exponent 0..32767, 64-bit significand with explicit leading bit"""
    raw = np.zeros(16, dtype=np.uint8)
    raw[:8] = np.frombuffer(m.to_bytes(8, "little"), dtype=np.uint8)
    raw[8:10] = np.frombuffer(((sign << 15) | e).to_bytes(2, "little"), dtype=np.uint8)
    return raw.view(np.longdouble)[0]


def ld_case(s):
    def one():
        k = s.byte() % 6
        M = 1 << 63
        if k == 0:
            e, m = s.rng(1, 32766), M
        elif k == 1:
            e, m = s.rng(1, 32766), (1 << 64) - 1
        elif k == 2:
            e, m = 0, s.bits(8) >> 1
        elif k == 3:
            e, m = 32767, s.pick([M, M | 1 << 62, M | 1 << 62 | 5])
        elif k == 4:
            e, m = s.pick([0, 1, 32766]), s.pick([0, 1, 2, M - 1, M, M + 1, (1 << 64) - 1])
            m = m & (M - 1) if e == 0 else m | M
        else:
            e, m = s.rng(1, 32766), s.bits(8) | M
        return [s.byte() & 1, e, m]
    return {"p": [one() for _ in range(12)], "n": s.rng(0, 8), "r": one()}


def ld_step(p, up):
    sg, e, m = p
    M = 1 << 63
    if e == 32767 and m != M:
        return None
    # order = e*2^63 + fraction (the leading bit of subnormals is 0, normals have it set)
    v = (e << 63) + (m & (M - 1))
    v = -v if sg else v
    top = 32767 << 63
    if up and v == top or not up and v == -top:
        return p
    v += 1 if up else -1
    if v == 0:
        return [sg, 0, 0]
    a = abs(v)
    e2, f = a >> 63, a & (M - 1)
    return [1 if v < 0 else 0, e2, f | (M if e2 else 0)]


def ld_body(c):
    x = np.array([ld(*p) for p in c["p"]], dtype=np.longdouble)

    def eq(g, w):
        if w is None:
            return np.isnan(g)
        e = ld(*w)
        return g == e and np.signbit(g) == np.signbit(e)
    for nm, up in (("next_less", False), ("next_greater", True)):
        g = call(getattr(u, nm), x)
        h = call(getattr(u, nm.replace("next", "nextn")), x, c["n"])
        for i, p in enumerate(c["p"]):
            w = ld_step(p, up)
            if not eq(g[i], w):
                raise Violation(f"{nm}[g]({x[i]!r}) = {g[i]!r}, expected {w and ld(*w)!r}", case=dict(c, p=[p]))
            w = p
            for j in range(c["n"]):
                w = ld_step(w, up) if w is not None else None
                if not eq(h[i, j], w):
                    raise Violation(f"{nm.replace('next', 'nextn')}[g]({x[i]!r})[{j}] = {h[i, j]!r}", case=dict(c, p=[p]))
    r = ld(*c["r"])
    x = np.append(x, np.longdouble(np.nan))
    g = call(u.nan_to_num, x, r)
    for i in range(len(x)):
        w = r if np.isnan(x[i]) else x[i]
        if not (g[i] == w and np.signbit(g[i]) == np.signbit(w) or np.isnan(g[i]) and np.isnan(w)):
            raise Violation(f"nan_to_num[g]({x[i]!r}, {r!r}) = {g[i]!r}")
    return "longdouble"


def facets(tier):
    return [Facet("neighbours", [next_case(d) for d in "fd"], next_body, 6000, 200000, evals=lambda c: 4 * len(c["b"]),
                  rule="every batch of bit patterns"),
            Facet("nans", [snan_case(d) for d in "efd"], snan_body, 9000, 300000, evals=lambda c: 2 * len(c["b"]),
                  rule="every batch of bit patterns"),
            Facet("longdouble", src(ld_case, 400), ld_body, 5000, 150000, evals=lambda c: 5 * len(c["p"]),
                  rule="every batch of 80-bit patterns")] + longf.facets("P17") + longf.ufacets("P17")
