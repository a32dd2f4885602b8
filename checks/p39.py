"""Invalid calls: empty or mismatched core dimensions, bad arguments of the wrappers, unsupported dtypes."""
import numpy as np
try:
    from numpy.exceptions import AxisError
except ImportError:
    from numpy import AxisError
import ufunclab as u
from core import Facet, Violation, call
from arr import lay, pl, INTS, sig_of
from gen import src

TECHNIQUE = "generated invalid calls (and their nearest valid neighbours, which must be accepted) against a table of the required exceptions"
NOTE = ("Every gufunc with every loop: core dimensions below and at the minimum, mismatched and wrong fixed dimensions, batch shapes, axis, out and "
        "layouts; the wrapped functions with non-integer and negative counts, wrong out shapes, axes out of range, float and complex arrays; every "
        "ufunc with every dtype that none of its loops accepts.")

# smallest core dimension each function accepts
NEED = {"gini": 1, "mad": 1, "rmad": 1, "meanvar": 1, "argmax": 1, "argmin": 1, "argminmax": 1, "minmax": 1, "min_argmin": 1, "max_argmax": 1,
        "rms": 1, "wjaccard": 1, "pearson_corr": 2, "gmean": 1, "gmeanw": 1, "hmean": 1, "hmeanw": 1, "pmean": 1, "pmeanw": 1, "peaktopeak": 1}
INLOOP = {"gmean", "gmeanw", "hmean", "hmeanw", "pmean", "pmeanw", "peaktopeak"}


def allfuncs():
    r = {}
    for mod, pre in ((u, ""), (u.normal, "normal."), (u.semivar, "semivar.")):
        for n in sorted(dir(mod)):
            f = getattr(mod, n)
            if isinstance(f, np.ufunc):
                r[pre + n] = f
    r["erfcx"] = u.erfcx
    for n in ("nextn_less", "nextn_greater", "one_hot", "convert_to_base"):
        r[n + ".gufunc"] = getattr(u, n).gufunc
    r["bincount._bincount"], r["bincount._bincountw"] = u.bincount._bincount, u.bincount._bincountw
    return r


FUNCS = allfuncs()
GUF = [n for n in FUNCS if FUNCS[n].signature and "." not in n]
BATCH = [[], [], [1], [2], [3], [2, 2], [1, 3]]


def ins_of(f):
    a, b = sig_of(f)
    return [[d.rstrip("?") for d in p] for p in a], [[d.rstrip("?") for d in p] for p in b]


def ones(shape, t):
    a = np.ones(shape, dtype=t)
    if t != "O" and t != "?" and a.ndim:
        a[...] = np.arange(1, a.size + 1).reshape(shape) % 100
    return a


def ccase(s):
    nm = s.pick(GUF)
    f = FUNCS[nm]
    return {"f": nm, "t": s.below(len(f.types)), "batch": s.pick(BATCH), "kind": s.byte() % 4, "dims": [s.rng(1, 5) for _ in range(3)],
            "which": s.byte(), "delta": s.rng(0, 3), "lay": s.many(6, s.byte), "out": s.chance(1, 3), "axis": s.chance(1, 3)}


def cbody(c):
    f = FUNCS[c["f"]]
    ins, outs = ins_of(f)
    ti, to = f.types[c["t"] % len(f.types)].split("->")
    names = []
    for p in ins:
        for d in p:
            if d not in names:
                names.append(d)
    var = [d for d in names if not d.isdigit()]
    size = {d: int(d) if d.isdigit() else c["dims"][i % 3] + 1 for i, d in enumerate(names)}
    shapes = [[size[d] for d in p] for p in ins]
    kind = c["kind"]
    batch = c["batch"]
    need = NEED.get(c["f"], 0)
    expect = None
    if kind == 0 and need:                  # too short
        size[var[0]] = c["delta"] % need if need > 1 else 0
        expect = "short"
    elif kind == 1:                         # exactly the minimum (accepted)
        if not var:
            return ""
        for v in var:
            size[v] = max(need, 0)
        if need == 0 and c["f"] in ("tri_area_indexed",):
            size[var[0]] = 3
    elif kind == 2:                         # one operand disagrees about a shared or fixed dimension
        cand = []
        for i, p in enumerate(ins):
            for j, d in enumerate(p):
                if d.isdigit() or sum(d in q for q in ins) > 1:
                    cand.append((i, j))
        if not cand:
            return ""
        expect = "mismatch"
    else:                                   # a missing dimension
        cand = [i for i, p in enumerate(ins) if p]
        if not cand:
            return ""
        expect = "missing"
    shapes = [[size[d] for d in p] for p in ins]
    bat = list(batch)
    if expect == "mismatch":
        i, j = cand[c["which"] % len(cand)]
        shapes[i][j] += [1, -1, 2, 3][c["delta"]]
    full = [bat + sh for sh in shapes]
    if expect == "missing":
        i = cand[c["which"] % len(cand)]
        full[i] = shapes[i][1:]
    xs = [lay(ones(sh, t), k) for sh, t, k in zip(full, ti, c["lay"])]
    if c["f"] == "tri_area_indexed":
        xs[1] = np.zeros(xs[1].shape, dtype=xs[1].dtype)
    if c["f"] == "sosfilter_ic_contig":
        xs = [np.array(x, dtype=x.dtype.newbyteorder("="), order="C") for x in xs]
    kw = {}
    out = None
    if c["out"] and expect != "missing":
        out = tuple(np.full(bat + [size[d] if d in size else int(d) for d in p], 77, dtype=t) for p, t in zip(outs, to))
        kw["out"] = out if len(out) > 1 else out[0]
    if c["axis"] and len(var) == 1 and all(len(p) <= 1 for p in ins + outs) and len({tuple(p) for p in outs + ins} - {()}) == 1:
        kw["axis"] = -1
    what = f"{c['f']}[{f.types[c['t'] % len(f.types)]}] with shapes {full}, {kw}"
    try:
        with np.errstate(all="ignore"):
            r = f(*xs, **kw)
    except Exception as e:
        if expect is None:
            raise Violation(f"{what} raised {type(e).__name__}: {e}")
        if not isinstance(e, ValueError):
            raise Violation(f"{what} raised {type(e).__name__}: {e}; expected ValueError")
        if out is not None and c["f"] not in INLOOP and any((o != 77).any() for o in out):
            raise Violation(f"{what} raised {e!r} but changed out")
        return expect
    if expect is not None:
        raise Violation(f"{what} returned {r!r}; expected ValueError ({expect})")
    return "accepted"


# ---------------------------------------------------------------- wrapped functions
WR = ["bincount", "bincountw", "convert_to_base", "nextn_greater", "nextn_less", "one_hot"]
BADCOUNT = [2.5, "3", None, [3], 3.0, -1, -7, 1j, -2**40, np.float64(2), np.array([1, 2])]


def wcase(s):
    return {"f": s.pick(WR), "shape": [s.rng(1, 4) for _ in range(s.rng(0, 3))], "n": s.rng(0, 6), "kind": s.byte() % 6, "bad": s.byte(),
            "axis": s.near0(6), "dt": s.byte(), "out": s.byte() % 3}


def wbody(c):
    nm, n, kind = c["f"], c["n"], c["kind"]
    shape = tuple(c["shape"])
    isbin = nm.startswith("bincount")
    if isbin and not shape:
        shape = (2,)
    nd = len(shape) if isbin else len(shape) + 1        # of the result
    ax = -1
    oshape = (shape[:-1] if isbin else shape) + (n,)
    dts = INTS if isbin or nm in ("one_hot", "convert_to_base") else "fdg"
    dt = dts[c["dt"] % len(dts)]
    if dt == "L" and nm == "convert_to_base":
        dt = "l"
    exp = (ValueError,)
    count = n
    odt = "l" if isbin else "d"
    if kind == 0:           # bad count
        bad = BADCOUNT[c["bad"] % len(BADCOUNT)]
        if nm.startswith("bincount") and bad is None:
            bad = -3
        count = bad
    elif kind == 1:         # axis out of range
        a = c["axis"]
        ax = a if a >= nd or a < -nd else (nd + a if a >= 0 else -nd - 1 + a)
        exp = (AxisError,)
    elif kind == 2:         # wrong out shape
        s2 = [list(oshape) + [1], list(oshape[:-1]) + [n + 1], [q + 1 for q in oshape[:-1]] + [n], [1] + list(oshape), list(oshape[:-1]) + [max(n - 1, 0)]][c["bad"] % 5]
        if tuple(s2) == oshape:
            s2 = [n + 2]
        oshape = tuple(s2)
    elif kind == 3:         # wrong dtype
        good = {"bincount": INTS, "bincountw": INTS, "convert_to_base": INTS, "one_hot": INTS, "nextn_greater": "fdg", "nextn_less": "fdg"}[nm]
        dt = [t for t in "?fdgeFDGOU" + "bBhHiIlL" if t not in good][c["bad"] % 8]
        if nm == "convert_to_base":
            exp = (TypeError, ValueError)
            if dt == "?":
                dt = "d"
    else:                   # a valid call
        exp = None
        ax = c["axis"]
        if not -nd <= ax < nd:
            ax = -1
        if isbin:
            l = list(shape)
            l[ax] = n
            oshape = tuple(l)
        else:
            l = list(shape)
            l.insert(ax % nd, n)
            oshape = tuple(l)
    x = np.ones(shape, dtype=dt)
    kw = {}
    if kind == 2 or c["out"] == 1:
        odt = "D" if dt in "FDG" else "l" if isbin or nm in ("one_hot", "convert_to_base") else dt
        if odt not in "lfdgD":
            odt = "d"
        kw["out"] = np.full(oshape, 55, dtype=odt)
    if ax != -1 or c["out"] == 2:
        kw["axis"] = ax
    if nm == "bincount":
        go = lambda: u.bincount(x, count, **kw)
    elif nm == "bincountw":
        if kind == 2:
            # the float64 weights need a float out
            kw["out"] = kw["out"].astype("d")
        elif "out" in kw:
            kw["out"] = kw["out"].astype("d")
        go = lambda: u.bincount(x, count, np.ones(shape), **kw)
    elif nm == "convert_to_base":
        go = lambda: u.convert_to_base(x, 3, count, **kw)
    else:
        go = lambda: getattr(u, nm)(x, count, **kw)
    what = f"{nm}({x.dtype}{shape}, n={count!r}, {({k: (v.shape if k == 'out' else v) for k, v in kw.items()})})"
    try:
        r = go()
    except Exception as e:
        if exp is None:
            raise Violation(f"{what} raised {type(e).__name__}: {e}")
        if not isinstance(e, exp):
            raise Violation(f"{what} raised {type(e).__name__}: {e}; expected {' or '.join(t.__name__ for t in exp)}")
        if "out" in kw and (kw["out"] != 55).any():
            raise Violation(f"{what} raised {e!r} but changed out")
        return ["count", "axis", "out shape", "dtype"][kind]
    if exp is not None:
        raise Violation(f"{what} returned {r!r}; expected {' or '.join(t.__name__ for t in exp)}")
    if r.shape != oshape:
        raise Violation(f"{what}: shape {r.shape}, expected {oshape}")
    return "accepted"


# ---------------------------------------------------------------- dtypes
DT = ["?", "b", "B", "h", "H", "i", "I", "l", "L", "q", "Q", "e", "f", "d", "g", "F", "D", "G", "O", "U3", "S2", "M8[s]", "m8[s]", "V4"]


def tcase(s):
    return {"f": s.pick(sorted(FUNCS)), "pos": s.byte(), "dt": s.pick(DT), "n": s.rng(1, 4), "b": s.rng(0, 2), "base": s.byte()}


def tbody(c):
    f = FUNCS[c["f"]]
    ins, _ = ins_of(f)
    pos = c["pos"] % f.nin
    dt = np.dtype(c["dt"])
    types = [t for t in f.types]
    ti = types[c["base"] % len(types)].split("->")[0]
    if any(np.can_cast(dt, t[pos], "safe") for t in types):
        return ""
    batch = [c["b"] + 1] if c["b"] else []
    names = {d: (int(d) if d.isdigit() else c["n"] + 1) for p in ins for d in p}
    xs = []
    for i, p in enumerate(ins):
        sh = batch + [names[d] for d in p]
        xs.append(np.zeros(sh, dtype=dt) if i == pos else np.ones(sh, dtype=ti[i]))
    kw = {}
    if c["f"] in ("nextn_less.gufunc", "nextn_greater.gufunc", "one_hot.gufunc", "convert_to_base.gufunc", "bincount._bincount"):
        kw["out"] = np.zeros(batch + [3], dtype="d" if "next" in c["f"] else "l")
    what = f"{c['f']} with {dt} as operand {pos}"
    try:
        r = f(*xs, **kw)
    except TypeError:
        return dt.name
    except Exception as e:
        raise Violation(f"{what} raised {type(e).__name__}: {e}; expected TypeError")
    raise Violation(f"{what} returned {r!r}; expected TypeError")


def facets(tier):
    return [Facet("core dimensions", src(ccase, 40), cbody, 30000, 400000, rule="an invalid call (labelled by kind), or its valid neighbour ('accepted')"),
            Facet("wrapped", src(wcase, 24), wbody, 12000, 200000, rule="an invalid call (labelled by what is wrong), or a valid one"),
            Facet("dtypes", src(tcase, 16), tbody, 12000, 100000, rule="a dtype that no loop accepts, labelled by dtype")]
