"""bincount against a dictionary model, over histories of accumulating calls."""
import numpy as np
import ufunclab as u
import longf
from core import Facet, Violation, call, check
from arr import lay, poison, pl, INTS
from gen import src

TECHNIQUE = "a dictionary model updated element by element, over generated histories of accumulating calls (stateful)"
NOTE = ("All integer dtypes, negative, large and extreme values, every weight dtype including complex, m given, 0 and by default, any axis of up "
        "to three dimensions, weights broadcast, sequences of up to five calls with the same out in any layout, alignment, byte order and castable dtype, mixed input dtypes; values are "
        "chosen so that all sums are exact.")
WD = list("bBhHiIlLfdFD")


def ints(s, dt, m):
    ii = np.iinfo(dt)

    def el():
        k = s.byte() % 12
        if k < 9:
            v = s.rng(0, m + 1) - (1 if s.chance(1, 5) else 0)
        elif k == 9:
            v = s.pick([int(ii.max), int(ii.min), int(ii.max) - 1, int(ii.max) // 2 + 1, int(ii.min) + 1, m, m - 1, m + 256, m + 65536, 2 ** 32])
        else:
            v = s.integer(dt)
        return min(max(v, int(ii.min)), int(ii.max))
    return el


def wval(s, wd):
    if wd in INTS:
        return abs(s.near0(3)) if np.dtype(wd).kind == "u" else s.near0(3)
    if wd in "FD":
        return [s.near0(16) / 8, s.near0(16) / 8]
    return s.near0(32) / 8


def case(s, mode):
    nd = s.rng(1, 3)
    shape = [s.rng(0, 4) for _ in range(nd)]
    axis = s.rng(0, nd - 1)
    shape[axis] = s.rng(0, 9)
    if s.chance(1, 12):
        shape[axis] = s.rng(10, 40)
    m = s.rng(0, 7)
    size = int(np.prod(shape))
    neg = s.chance(1, 2)
    c = {"shape": shape, "axis": axis - nd if neg else axis, "m": m, "mode": mode, "ol": s.byte(), "calls": []}
    ncalls = s.rng(1, 5) if mode != "default" else 1
    wd = s.pick(WD)
    if mode == "weights" or mode == "broadcast":
        c["wd"] = wd
    c["od"] = wd = wd if "wd" in c else "l"
    if s.chance(1, 4):
        c["od"] = s.pick([d for d in WD if np.can_cast(wd, d, "same_kind")])
    for _ in range(ncalls):
        dt = s.pick(INTS)
        if dt == "L" and mode == "default":
            pass
        el = ints(s, dt, m if mode != "default" else 9)
        k = {"dt": dt, "lay": s.byte(), "lw": s.byte(), "x": [el() for _ in range(size)]}
        if mode == "default":
            # keep the default length small
            k["x"] = [v if v < 200 else v % 40 for v in k["x"]]
        if "wd" in c:
            wsh = list(shape)
            if mode == "broadcast":
                for i in range(nd):
                    if i != axis % nd and s.byte() & 1:
                        wsh[i] = 1
            k["wsh"] = wsh
            k["w"] = [wval(s, wd) for _ in range(int(np.prod(wsh)))]
        c["calls"].append(k)
    return c


def body(c):
    shape, m, mode = c["shape"], c["m"], c["mode"]
    nd = len(shape)
    ax = c["axis"] % nd
    wd = c.get("wd")
    oshape = list(shape)
    code = c["ol"] % 8 if mode != "default" else 7
    od = c["od"] if code < 7 else wd or "l"
    if mode == "default":
        k = c["calls"][0]
        x = np.array(k["x"], dtype=k["dt"]).reshape(shape)
        if x.size == 0:
            try:
                u.bincount(x, axis=c["axis"])
            except ValueError:
                return ""
            except Exception as e:
                raise Violation(f"bincount of an empty array without m raised {type(e).__name__}: {e}")
            return ""
        m = max(max(k["x"]) + 1, 0)
    oshape[ax] = m
    big = poison([2 * q + 1 for q in oshape], od)
    init = np.arange(int(np.prod(oshape))) % 5
    if code == 0:
        out = np.zeros(oshape, dtype=od)
    elif code == 1:
        out = np.zeros(oshape, dtype=od, order="F")
    elif code == 2:
        out = big[tuple(slice(0, 2 * q, 2) for q in oshape)]
    elif code == 3:
        out = big[tuple(slice(2 * q, 0, -2) if q else slice(0, 0) for q in oshape)]
    elif code == 4:
        out = np.zeros(oshape, dtype=np.dtype(od).newbyteorder("S"))
    elif code == 5:
        raw = np.zeros(int(np.prod(oshape)) * np.dtype(od).itemsize + 1, dtype="B")
        out = np.frombuffer(raw, dtype=od, offset=1, count=int(np.prod(oshape))).reshape(oshape)
    elif code == 6:
        # a field of a packed structure
        out = np.zeros(oshape, dtype=[("a", "b"), ("v", od), ("z", "b")])["v"]
    else:
        out = None
    before = None
    if out is not None:
        out[...] = init.reshape(oshape)
        if code in (2, 3):
            msk = np.ones(big.shape, dtype=bool)
            msk[tuple(slice(0, 2 * q, 2) if code == 2 else (slice(2 * q, 0, -2) if q else slice(0, 0)) for q in oshape)] = False
            before = big[msk].tobytes()
    cplx = od in "FD"
    model = np.zeros(oshape, dtype=complex if cplx else object)
    if out is not None and mode != "default":
        model[...] = init.reshape(oshape)
    if mode == "default":
        out = None
    hits = 0
    log = []
    for k in c["calls"]:
        x = np.array(k["x"], dtype=k["dt"]).reshape(shape)
        kw = {"axis": c["axis"]}
        if mode != "default":
            kw["m"] = m
        w = None
        if wd:
            w = np.array([complex(*v) if isinstance(v, list) else v for v in k["w"]]).astype(wd).reshape(k["wsh"])
            kw["weights"] = lay(w, k["lw"])
        if out is not None:
            kw["out"] = out
        x0, w0 = x.copy(), None if w is None else w.copy()
        r = call(u.bincount, lay(x, k["lay"]), **kw)
        log.append((pl(x), None if w is None else pl(w)))
        if out is not None and r is not out:
            raise Violation("bincount did not return the given out")
        if out is None and mode != "default":
            model = np.zeros(oshape, dtype=complex if cplx else object)
        W = None if w is None else np.broadcast_to(w, shape)
        for ix in np.ndindex(*shape):
            v = int(x[ix])
            if 0 <= v < m:
                o = list(ix)
                o[ax] = v
                o = tuple(o)
                model[o] = model[o] + (1 if W is None else complex(W[ix]) if cplx else float(W[ix]) if wd in "fd" else int(W[ix]))
                hits += 1
        if r.shape != tuple(oshape) or r.dtype.newbyteorder("=") != np.dtype(od):
            raise Violation(f"bincount({pl(x)}, axis={c['axis']}, m={m}, weights dtype {wd}): result {r.dtype}{r.shape}, expected {od}{tuple(oshape)}")
        want = model
        if od in INTS:
            bits = np.dtype(od).itemsize * 8
            ii = np.iinfo(od)
            want = np.vectorize(lambda v: (int(v) - int(ii.min)) % (1 << bits) + int(ii.min), otypes=[object])(model) if model.size else model
        if not (np.asarray(r.astype(complex) if cplx else r.astype(object) if r.size else r) == want).all():
            raise Violation(f"bincount call {len(log)} of {log} with axis={c['axis']}, m={m}, out {'given' if out is not None else 'new'}, "
                            f"weights dtype {wd}, out dtype {od}: {pl(r)}, expected {pl(want)}")
    if before is not None and big[msk].tobytes() != before:
        raise Violation(f"bincount({log}, axis={c['axis']}, m={m}) wrote outside out")
    return f"{mode} {len(c['calls'])} calls" if hits else ""


def facets(tier):
    return [Facet("count", src(lambda s: case(s, "count"), 1200), body, 4000, 100000, evals=lambda c: len(c["calls"]),
                  rule="some value is counted; labelled by the number of calls that accumulate"),
            Facet("default m", src(lambda s: case(s, "default"), 500), body, 3000, 60000, rule="some value is counted"),
            Facet("weights", src(lambda s: case(s, "weights"), 1200), body, 5000, 100000, evals=lambda c: len(c["calls"]),
                  rule="some weight is added"),
            Facet("weights broadcast", src(lambda s: case(s, "broadcast"), 1200), body, 3000, 60000, evals=lambda c: len(c["calls"]),
                  rule="some weight is added")] + longf.facets("P35")
