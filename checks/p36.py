"""convert_to_base and one_hot against Python integer arithmetic."""
import numpy as np
import ufunclab as u
import longf
from core import Facet, Violation, call
from arr import lay, poison, pl, INTS
from gen import src

TECHNIQUE = "Python integer arithmetic (divmod, reconstruction) and set membership"
NOTE = ("All integer dtypes of k and base, extreme values, bases from 0 to the largest, digit counts 0 to 70, scalars and arrays of up to two "
        "dimensions broadcast against each other, every axis, out in several layouts and dtypes; also the gufuncs directly.")


def shapes(s):
    return s.pick([[], [], [1], [3], [2, 3], [2, 1], [1, 3], [0], [2, 0]])


def vals(s, dt, lo, n):
    ii = np.iinfo(dt)

    def el():
        k = s.byte() % 6
        if k < 2:
            v = s.rng(0, 40)
        elif k == 2:
            v = int(ii.max) - s.rng(0, 3)
        elif k == 3:
            v = (1 << s.rng(0, np.dtype(dt).itemsize * 8 - 2)) + (s.near0(1) if s.byte() & 1 else 0)
        elif k == 4:
            v = s.bits(8) >> s.rng(0, 63)
        else:
            v = s.bits(np.dtype(dt).itemsize)
        v = v % (int(ii.max) + 1)
        return -max(lo, v) - (s.byte() & 1 and v == ii.max) if neg and ii.min < 0 and s.byte() & 1 else max(lo, v)
    neg = s.chance(1, 3)
    return [el() for _ in range(n)]


def bcase(s):
    kd, bd = s.pick(INTS), s.pick(INTS)
    if (kd == "L") != (bd == "L") and np.dtype(kd if bd == "L" else bd).kind == "i":
        bd = kd                     # int64 with uint64 has no common integer type
    ks, bs = shapes(s), shapes(s)
    try:
        bc = np.broadcast_shapes(tuple(ks), tuple(bs))
    except ValueError:
        bs, bc = [], tuple(ks)
    nd = s.rng(0, 6)
    zero = s.chance(1, 12)
    if s.chance(1, 8):
        nd = s.rng(0, 70)
    return {"kd": kd, "bd": bd, "ks": ks, "bs": bs, "n": nd, "axis": s.near0(3), "pyint": s.chance(1, 3), "lay": s.many(3, s.byte),
            "out": s.rng(0, 5), "k": vals(s, kd, 0, int(np.prod(ks))), "b": [0 if v == 2 and zero else v for v in vals(s, bd, 1 if s.chance(1, 6) else 2, int(np.prod(bs)))]}


def place(nd, axis):
    """wrap an arbitrary axis into -nd..nd-1"""
    return (axis + nd) % (2 * nd) - nd if nd else 0


def mkout(c, shape, dt):
    if c["out"] == 1:
        return poison(shape, dt)
    if c["out"] == 2:
        return poison([2 * q for q in shape], dt)[(...,) + tuple(slice(None, None, 2) for _ in shape)]
    if c["out"] == 3:
        return np.asfortranarray(poison(shape, dt))
    return None


def bbody(c):
    k = np.array(c["k"], dtype=c["kd"]).reshape(c["ks"])
    b = np.array(c["b"], dtype=c["bd"]).reshape(c["bs"])
    n = c["n"]
    bc = np.broadcast_shapes(k.shape, b.shape)
    axis = place(len(bc) + 1, c["axis"])
    oshape = list(bc)
    oshape.insert(axis % (len(bc) + 1), n)
    rt = np.result_type(k, b)
    od = "L" if rt == np.uint64 else "l"
    args = [lay(k, c["lay"][0]), lay(b, c["lay"][1])]
    if c["pyint"] and b.ndim == 0 and k.dtype != np.uint64 and int(b) <= np.iinfo(c["kd"]).max:
        args[1] = int(b)
        rt = k.dtype
        od = "l"
    if c["pyint"] and k.ndim == 0 and b.ndim == 0 and int(k) < 2 ** 62 and int(b) < 2 ** 62:
        args, od = [int(k), int(b)], "l"
    out = mkout(c, oshape, od)
    kw = {} if out is None else {"out": out}
    if not (axis == -1 and c["axis"] % 2 == 0):
        kw["axis"] = axis
    what = f"convert_to_base({pl(k)}[{c['kd']}], {pl(b)}[{c['bd']}], {n}, axis={axis})"
    if (b == 0).any() and k.size and b.size:
        if n == 0:
            return ""
        try:
            u.convert_to_base(*args, n, **kw)
        except ValueError:
            return "base 0"
        raise Violation(what + " did not raise ValueError")
    r = np.asarray(call(u.convert_to_base, *args, n, **kw))
    if r.shape != tuple(oshape):
        raise Violation(f"{what}: shape {r.shape}, expected {tuple(oshape)}")
    if r.dtype != np.dtype(od):
        raise Violation(f"{what}: dtype {r.dtype}, expected {np.dtype(od)}")
    R = np.moveaxis(r, axis, -1)
    K, Bs = np.broadcast_to(k, bc), np.broadcast_to(b, bc)
    lab = ""
    for ix in np.ndindex(*bc):
        kk, bb = int(K[ix]), int(Bs[ix])
        d = [int(q) for q in R[ix]]
        w = []
        q = kk
        for _ in range(n):
            q, m = divmod(q, bb)
            w.append(m)
        if kk < 0 or bb < 0:
            # the sign of the digits is not documented; their sum is
            t = sum(e * bb ** i for i, e in enumerate(d))
            if (t - kk) % abs(bb) ** n or abs(kk) < abs(bb) ** n and t != kk or not all(abs(e) < abs(bb) for e in d):
                raise Violation(f"{what}: the digits {d} of {kk} in base {bb} give {t}")
            if n:
                lab = lab or "signed"
            continue
        if d != w:
            raise Violation(f"{what}: the digits of {kk} in base {bb} are {d}, expected {w}")
        if sum(e * bb ** i for i, e in enumerate(d)) != kk % bb ** n or not all(0 <= e < bb for e in d):
            raise Violation(f"{what}: {d} does not reconstruct {kk}")
        if n:
            lab = "truncated" if kk >= bb ** n else lab or "complete"
    if out is not None and r is not out and n:
        raise Violation(what + ": did not return out")
    return lab


def ocase(s):
    dt = s.pick(INTS)
    sh = shapes(s)
    n = s.rng(0, 7)
    ii = np.iinfo(dt)

    def el():
        q = s.byte() % 8
        v = s.rng(0, n) if q < 5 else s.pick([-1, -n, int(ii.max), int(ii.min), int(ii.max) - 1, 2 ** 32, 2 ** 32 + 1, 2 ** 63, 2 ** 64 - 1, 256, -256]) \
            if q < 7 else s.integer(dt)
        return min(max(v, int(ii.min)), int(ii.max))
    return {"dt": dt, "sh": sh, "n": n, "axis": s.near0(3), "lay": s.byte(), "out": s.rng(0, 5), "py": s.chance(1, 4),
            "k": [el() for _ in range(int(np.prod(sh)))]}


def obody(c):
    k = np.array(c["k"], dtype=c["dt"]).reshape(c["sh"])
    n = c["n"]
    axis = place(k.ndim + 1, c["axis"])
    oshape = list(k.shape)
    oshape.insert(axis % (k.ndim + 1), n)
    out = mkout(c, oshape, c["dt"])
    kw = {} if out is None else {"out": out}
    if not (axis == -1 and c["axis"] % 2 == 0):
        kw["axis"] = axis
    a = lay(k, c["lay"])
    if c["py"] and k.ndim == 0 and out is None and -2 ** 63 <= int(k) < 2 ** 63:
        a = int(k)
    r = np.asarray(call(u.one_hot, a, n, **kw))
    what = f"one_hot({pl(k)}[{c['dt']}], {n}, axis={axis})"
    if r.shape != tuple(oshape):
        raise Violation(f"{what}: shape {r.shape}, expected {tuple(oshape)}")
    R = np.moveaxis(r, axis, -1)
    lab = ""
    for ix in np.ndindex(*k.shape):
        w = [1 if i == int(k[ix]) else 0 for i in range(n)]
        if R[ix].tolist() != w:
            raise Violation(f"{what}: for {int(k[ix])} the result is {R[ix].tolist()}, expected {w}")
        lab = "hot" if any(w) else lab or "cold"
    if out is not None and not np.array_equal(out, r):
        raise Violation(what + ": out does not hold the result")
    return lab if n else ""


def facets(tier):
    return [Facet("convert_to_base", src(bcase, 500), bbody, 9000, 200000, rule="digits were computed; 'truncated' when k has more digits than asked for"),
            Facet("one_hot", src(ocase, 300), obody, 9000, 200000, rule="n > 0 and some k; 'hot' when some k is in range")] + longf.facets("P36")
