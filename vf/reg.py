"""All ufuncs and gufuncs of the package, with generators for their operands.

A case is plain data: the function, the loop, core and batch dimensions, and the
values of every operand; `build` turns it into C-contiguous arrays.
"""
import numpy as np
import ufunclab as u
import gen
from gen import row
from arr import mk, sig_of, INTS, poison, pl, same

NEED = {"gini": 1, "mad": 1, "rmad": 1, "meanvar": 1, "argmax": 1, "argmin": 1, "argminmax": 1, "minmax": 1, "min_argmin": 1, "max_argmax": 1,
        "rms": 1, "wjaccard": 1, "pearson_corr": 2, "gmean": 1, "gmeanw": 1, "hmean": 1, "hmeanw": 1, "pmean": 1, "pmeanw": 1, "peaktopeak": 1}
CONTIG = {"sosfilter_ic_contig"}        # documented to work only for contiguous arrays
ACC = {"bincount._bincount", "bincount._bincountw"}


def _funcs():
    r = {}
    for mod, pre in ((u, ""), (u.normal, "normal."), (u.semivar, "semivar.")):
        for n in sorted(dir(mod)):
            f = getattr(mod, n)
            if isinstance(f, np.ufunc):
                r[pre + n] = f
    r["erfcx"] = u.erfcx
    for n in ("nextn_less", "nextn_greater", "one_hot", "convert_to_base"):
        r[n + ".gufunc"] = getattr(u, n).gufunc
    r["bincount._bincount"], r["bincount._bincountw"] = u.bincount._bincount, u.bincount._bincountw
    r["gendot(minimum,maximum)"] = u.gendot(np.minimum, np.maximum)
    r["gendot(multiply,add)"] = u.gendot(np.multiply, np.add)
    r["gendot(subtract,argmax)"] = u.gendot(np.subtract, u.argmax)
    r["gendot(less,logical_or)"] = u.gendot(np.less, np.logical_or)
    return r


FUNCS = _funcs()
NAMES = sorted(FUNCS)
LOOPS = {n: [t for t in f.types if "m" not in t and "M" not in t] for n, f in FUNCS.items()}
# NumPy's complex product uses fused multiply-add or not, depending on the layout
LOOPS["gendot(multiply,add)"] = [t for t in LOOPS["gendot(multiply,add)"] if t[0] not in "FDG"]
SIG = {}
for _n, _f in FUNCS.items():
    SIG[_n] = sig_of(_f)


def split(t):
    a, b = t.split("->")
    return a, b


# special operands: (function, position) -> generator of one value
def _op(s, t):
    return s.rng(0, 5) if not s.chance(1, 16) else s.rng(0, 120)


def _kind(s, t):
    return s.rng(0, 3)


def _ddof(s, t):
    return s.rng(0, 2)


def _bool(s, t):
    return s.byte() & 1


def _base(s, t):
    return s.rng(2, 20)


def _nonneg(s, t):
    return min(s.rng(0, 120) if s.byte() & 1 else s.bits(3), int(np.iinfo(t).max))


def _count(s, t):
    return s.rng(0, 9) - (s.byte() % 8 == 7 and t.islower())


def _p(s, t):
    return s.pick([1.0, 2.0, 0.0, -1.0, 0.5, 3.0, 1.5, -2.0])


def _order(s, t):
    return s.pick([2.0, 1.0, 0.0, 3.0, 0.5, float("inf"), 1.5, 4.0])


def _pos(s, t):
    return s.rng(1, 40) / 4


def _tri(s, t):
    return s.rng(0, 3)


SPECIAL = {("argfirst", 1): _op, ("first", 1): _op, ("ordered", 1): _op, ("percentileofscore", 2): _kind, ("meanvar", 1): _ddof,
           ("mad", 1): _bool, ("rmad", 1): _bool, ("gini", 1): _bool, ("convert_to_base.gufunc", 0): _nonneg, ("convert_to_base.gufunc", 1): _base,
           ("one_hot.gufunc", 0): _count, ("bincount._bincount", 0): _count, ("bincount._bincountw", 0): _count, ("pmean", 1): _p, ("pmeanw", 2): _p,
           ("vnorm", 1): _order, ("unwrap", 1): _pos, ("tri_area_indexed", 1): _tri, ("wjaccard", 0): None, ("wjaccard", 1): None,
           ("gmeanw", 1): _pos, ("hmeanw", 1): _pos, ("pmeanw", 1): _pos, ("logfactorial", 0): _nonneg, ("hyperbolic_ramp", 1): _pos,
           ("exponential_ramp", 1): _pos, ("multivariate_logbeta", 0): _pos, ("backlash", 1): _pos, ("backlash_sum", 2): _pos}
SORT = {("searchsortedl", 0), ("searchsortedr", 0), ("linear_interp1d", 1)}


def gen_op(s, name, i, t, style):
    """-> a function that makes one plain value of operand i"""
    g = SPECIAL.get((name, i))
    if g is not None:
        return lambda: g(s, t)
    if t == "O":
        return lambda: s.obj(s.byte() % 7 if style else 0)
    if t == "?":
        return lambda: s.byte() & 1
    if t in "FDG":
        e = "f" if t == "F" else "d"
        if style == 0:
            return lambda: [float(s.near0(5)), float(s.near0(5))]
        return lambda: [s.flt(e, nan=style == 2, inf=style == 2, mag=1e6 if style == 1 else None), s.flt(e, mag=1e6 if style == 1 else None)]
    if t in INTS + "qQ":
        if style == 0:
            return lambda: s.small(t)
        if style == 1:
            return lambda: s.rng(0, 100)
        return lambda: s.integer(t)
    if style == 0:
        return lambda: float(s.near0(4))
    if style == 1:
        return lambda: s.flt(t, mag=1000.0)
    return lambda: s.flt(t, nan=True, inf=True)


BATCHES = [[], [1], [2], [3], [2, 3], [3, 1], [1, 2, 2], [2, 1, 2], [4], [5]]


def gen_case(s, names=NAMES, nasty=False, zero=True, dmax=7, batches=BATCHES, style=None, need=True):
    """A call of some function on any arrays its loop takes."""
    name = s.pick(names)
    t = s.pick(LOOPS[name])
    ins, outs = SIG[name]
    dims, big = {}, False
    for p in ins + outs:
        for d in p:
            if d not in dims:
                lo = NEED.get(name, 0) if need else 0
                v = s.rng(max(lo, 1), dmax)
                if lo == 0 and zero and s.chance(1, 12):
                    v = 0
                if s.chance(1, 24):
                    v = s.rng(8, 24)
                    if s.chance(1, 5):
                        v = s.rng(60, 300)
                        big = True
                dims[d] = int(d) if d.isdigit() else v
    if name == "tri_area_indexed" and not nasty:
        dims["m"] = max(4, dims["m"])
    batch = list(s.pick(batches))
    if big:
        batch = batch[:1]
    style = s.byte() % 3 if style is None else style
    ops = []
    one = s.byte() % 3
    for i, p in enumerate(ins):
        b = list(batch)
        if one:
            for k in range(len(b)):
                if s.byte() % 4 == 3:
                    b[k] = 1
            if b and s.byte() % 6 == 5:
                b = b[1:]
            if len(b) > 0 and s.byte() % 9 == 8:
                b = []
        shape = b + [dims[d] for d in p]
        ti = split(t)[0][i]
        g = gen_op(s, name, i, ti, style)
        if nasty and s.byte() % 3 == 0 and ti != "O":
            g = (lambda ti: lambda: s.value(ti, nan=True, inf=True) if ti not in "FDG" else [s.flt("f", nan=True, inf=True), s.flt("f", nan=True, inf=True)])(ti)
        if nasty and name == "tri_area_indexed" and i == 1 and s.byte() % 4:
            g = lambda: s.near0(2 * dims["m"] + 2)
        n = int(np.prod(shape))
        ops.append({"s": shape, "v": row(s, g, n)})
    return {"f": name, "t": t, "dims": dims, "ops": ops}


LENGTHS = [64, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 777, 1000, 1023, 1024, 1025]
MORE = [2047, 2048, 2049, 3000, 4095, 4096, 4097, 5000, 8192, 8193]


def long_case(s, names, **kw):
    """A case with one core or batch dimension of hundreds or thousands of elements.  The values of a small case
    are repeated in a random order (see `build`)."""
    n = s.pick(names)
    ins, outs = SIG[n]
    core = sorted({d for p in ins + outs for d in p if not d.isdigit()})
    core = core if core and s.byte() % 2 else []
    c = gen_case(s, [n], zero=False, dmax=7, batches=[[], [1], [2], [3], [2, 2]] if core else [[2], [3], [1], [2, 2], [1, 2], [4]], **kw)
    N = s.pick(LENGTHS if s.byte() % 4 or not core else MORE)
    if gen.INTEGERS and s.byte() % 3 == 2:
        N = min(max(s.pick(gen.INTEGERS) + s.near0(1), 8), 9000)
    for o in c["ops"]:
        o["s0"] = list(o["s"])
    c["grow"] = s.byte()
    if core:
        d = s.pick(core)
        c["dims"][d] = N
        for o, p in zip(c["ops"], ins):
            for k, q in enumerate(p):
                if q == d:
                    o["s"][len(o["s"]) - len(p) + k] = N
    else:
        b = batch_of(c)
        if not b:
            return c
        ax = s.pick(range(len(b)))
        for o, p in zip(c["ops"], ins):
            k = len(o["s"]) - len(p) - len(b) + ax
            if k >= 0 and o["s"][k] == b[ax]:
                o["s"][k] = N
    for o, p in zip(c["ops"], ins):
        if int(np.prod(o["s"])) > 60000:
            return gen_case(s, [n], zero=False, dmax=7, **kw)
    return c


def spread(a, shape, code):
    """an array of this shape made of the elements of a, in a random order along the axes that grow"""
    for ax, N in enumerate(shape):
        m = a.shape[ax]
        if m != N:
            if m == 0:
                return np.zeros(shape, dtype=a.dtype)
            ix = np.random.default_rng([code, N]).integers(0, m, N)
            ix[:m] = np.arange(min(m, N))
            if code % 5 == 0:
                ix[m:N - 1] = 0         # the same nearly everywhere
            a = np.take(a, ix, axis=ax)
    return a


def build(c):
    """the operands of a case, as C-contiguous arrays"""
    ti, _ = split(c["t"])
    xs = []
    for i, (o, t) in enumerate(zip(c["ops"], ti)):
        a = mk_flat(o["v"], t).reshape(o.get("s0", o["s"]))
        if "s0" in o:
            a = spread(a, o["s"], c["grow"])
        if (c["f"], i) in SORT:
            a = np.sort(a, axis=-1) if t != "O" else a
        xs.append(a)
    return xs


def mk_flat(v, t):
    if t in INTS + "qQ?":
        if t != "?":
            ii = np.iinfo(t)
            v = [min(max(int(e), int(ii.min)), int(ii.max)) for e in v]
        return np.array(v, dtype=t)
    return mk(v, t, (len(v),)) if v or t in "gOFDG" else np.zeros(0, dtype=t)


def batch_of(c):
    ins, _ = SIG[c["f"]]
    return np.broadcast_shapes(*[tuple(o["s"][:len(o["s"]) - len(p)]) for o, p in zip(c["ops"], ins)])


def out_shapes(c):
    b = batch_of(c)
    return [b + tuple(c["dims"][d] for d in p) for p in SIG[c["f"]][1]]


def needs_out(name):
    ins, outs = SIG[name]
    have = {d for p in ins for d in p} | {d for p in outs for d in p if d.isdigit()}
    return any(d not in have for p in outs for d in p)


def mkout(c, init=None, dt=None):
    """fresh output arrays: poisoned, or zero where the function accumulates"""
    r = []
    for sh, t in zip(out_shapes(c), split(c["t"])[1]):
        if c["f"] in ACC:
            r.append(np.zeros(sh, dtype=t))
        elif init is None:
            r.append(poison(sh, t))
        else:
            a = np.zeros(sh, dtype=t)
            a[...] = init
            r.append(a)
    return r


def run(c, xs, outs=None, **kw):
    """calls the function; -> list of outputs.  Uses the case's loop."""
    f = FUNCS[c["f"]]
    if outs is None and needs_out(c["f"]):
        outs = mkout(c)
    if outs is not None:
        kw["out"] = tuple(outs)
    with np.errstate(all="ignore"):
        r = f(*xs, **kw)
    return [r] if f.nout == 1 else list(r)


def describe(c, xs=None):

    return f"{c['f']}[{c['t']}](" + ", ".join(pl(x) for x in (xs or build(c))) + ")"


def arr_of(r, t):
    """an output as an array of the loop's dtype (object results may be bare)"""
    if t == "O" and not isinstance(r, np.ndarray):
        a = np.empty((), dtype=object)
        a[()] = r
        return a
    return np.asarray(r)


def agree(a, b, scale=0.0):
    """bitwise equal up to nan payloads, else equal up to rounding"""

    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    if same(a, b):
        return True
    if a.dtype.kind not in "fc":
        return False
    with np.errstate(all="ignore"):
        fin = np.isfinite(a) & np.isfinite(b)
        if not (fin | (a == b) | ((a != a) & (b != b))).all():
            return False
        tol = {"f": 1e-5, "F": 1e-5, "e": 1e-2}.get(a.dtype.char, 1e-12)
        return bool((abs(a - b)[fin] <= tol * np.maximum(np.maximum(abs(a), abs(b))[fin], scale)).all())


def scale_of(xs):
    """size of the terms that may cancel"""
    m = 0.0
    n = max([x.size for x in xs], default=0)
    with np.errstate(all="ignore"):
        for x in xs:
            if x.dtype.kind in "fciu" and x.size:
                q = abs(x.astype("D" if x.dtype.kind == "c" else "d"))
                q = q[np.isfinite(q)]
                if q.size:
                    m = max(m, float(q.max()))
    return m if n < 64 else m * max(m, 1.0) * n
