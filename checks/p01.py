"""The same logical arrays in other memory layouts."""
import numpy as np
from core import Facet, Violation
import reg
from arr import poison, same
from gen import src

TECHNIQUE = "metamorphic: the call on arbitrary views (any strides, order, alignment, byte order, out) against the call on C-contiguous copies"
NOTE = ("Every ufunc and gufunc of the package with every loop; per operand and output: a step of -3 to 3 and a gap along every axis, any axis order in "
        "memory, misalignment, byte swapping, read-only, zero strides by broadcasting; operands that are the same array or overlap; poisoned surroundings. Core lengths 0 to 24, and in a facet of their own up to 8193. sosfilter_ic_contig "
        "is documented for contiguous arrays only and left out.")
NAMES = [n for n in reg.NAMES if n not in reg.CONTIG]


def gen_lay(s, nd):
    return {"p": s.byte(), "st": [s.pick([1, 2, -1, 3, -2, 1, -3]) for _ in range(nd)], "k": s.byte() % 12, "bc": s.byte()}


def perm(nd, code):
    p = list(range(nd))
    r = []
    for i in range(nd, 0, -1):
        r.append(p.pop(code % i))
        code //= i
    return r


def view(shape, dt, L, out=False):
    """An array of this shape in a generated layout, and the memory around it."""
    dt = np.dtype(dt)
    k = L["k"]
    nd = len(shape)
    if k == 10 and dt.itemsize > 1 and dt.kind != "O":
        dt = dt.newbyteorder()
    p = perm(nd, L["p"])
    st = (L["st"] + [1] * nd)[:nd]
    # memory order p: axis p[0] is the slowest
    mem = [abs(st[a]) * shape[a] + (1 if abs(st[a]) > 1 else 0) for a in p]
    if k == 11 and dt.kind != "O" and dt.itemsize > 1:          # misaligned
        n = int(np.prod(mem)) if mem else 1
        raw = np.zeros(n * dt.itemsize + 1, dtype="B")
        big = raw[1:1 + n * dt.itemsize].view(dt).reshape(mem)
        big[...] = poison(mem, dt.newbyteorder("="))
    else:
        raw = big = poison(mem, dt.newbyteorder("=") if dt.kind != "O" else dt)
        if not dt.isnative:
            raw = big = big.astype(dt)
    inv = [p.index(a) for a in range(nd)]
    v = big.transpose(inv) if nd else big
    idx = []
    for a in range(nd):
        q, n = st[a], shape[a]
        if q > 0:
            idx.append(slice(0, q * n, q) if q > 1 else slice(0, n))
        elif n == 0:
            idx.append(slice(0, 0))
        else:
            hi = abs(q) * n - 1 if abs(q) == 1 else abs(q) * n
            idx.append(slice(hi, None, q) if abs(q) == 1 else slice(hi, 0, q))
    v = v[tuple(idx)] if nd else v[...]
    assert v.shape == tuple(shape), (v.shape, shape, L)
    return v, raw


def case(s):
    c = reg.gen_case(s, NAMES)
    c["lay"] = [gen_lay(s, len(o["s"])) for o in c["ops"]]
    c["ol"] = [gen_lay(s, len(sh)) for sh in reg.out_shapes(c)] if s.byte() % 2 else None
    return c


def body(c):
    xs = reg.build(c)
    to = reg.split(c["t"])[1]
    try:
        base = reg.run(c, xs)
        err = None
    except Exception as e:
        base, err = None, e
    vs = []
    for x, L in zip(xs, c["lay"]):
        nb = L["bc"]
        if nb % 5 == 4 and x.ndim and x.size:
            # make the operand constant along an axis, by a zero stride
            ax = nb // 5 % x.ndim
            x0 = np.take(x, [0], axis=ax)
            x[...] = x0
            v, _ = view(x0.shape, x.dtype, L)
            v[...] = x0
            vs.append(np.broadcast_to(v, x.shape))
            base = None
            continue
        v, _ = view(x.shape, x.dtype, L)
        v[...] = x
        if L["k"] == 9:
            v.flags.writeable = False
        vs.append(v)
    if base is None and err is None:
        base = reg.run(c, xs)
    outs = None
    if c["ol"] is not None or reg.needs_out(c["f"]):
        ol = c["ol"] or [{"p": 0, "st": [], "k": 0}] * len(to)
        outs = []
        for sh, t, L in zip(reg.out_shapes(c), to, ol):
            if c["f"] in reg.ACC:
                L = dict(L, k=0)
            v, raw = view(sh, t, L)
            if c["f"] in reg.ACC:
                v[...] = 0
            outs.append(v)
    try:
        got = reg.run(c, vs, outs)
    except Exception as e:
        if err is not None and type(e) is type(err):
            return "raises"
        raise Violation(f"{reg.describe(c, xs)} with layouts {[v.strides for v in vs]} raised {type(e).__name__}: {e}")
    if err is not None:
        raise Violation(f"{reg.describe(c, xs)} raised {err!r} for contiguous arrays only")
    sc = reg.scale_of(xs)
    for k, (a, b, t) in enumerate(zip(got, base, to)):
        a, b = reg.arr_of(a, t), reg.arr_of(b, t)
        if outs is not None and a is not outs[k] and a.ndim:
            raise Violation(f"{reg.describe(c, xs)}: the returned array is not the given out")
        if a.dtype.newbyteorder("=") != b.dtype or b.dtype != np.dtype(t):
            raise Violation(f"{reg.describe(c, xs)}: dtype {a.dtype} (contiguous: {b.dtype}), expected {t}")
        a = a.astype(b.dtype)
        if not reg.agree(a, b, sc):
            raise Violation(f"{reg.describe(c, xs)} with strides {[v.strides for v in vs]}, byte order {[v.dtype.str for v in vs]}"
                            f"{', out strides ' + str(outs[k].strides) if outs else ''}: output {k} is {reg.pl(a)}, with contiguous arrays {reg.pl(b)}")
    return c["f"] if any(x.size > 1 for x in xs) else ""


# ---------------------------------------------------------------- operands that share memory
def pairs_of(c):
    ti = reg.split(c["t"])[0]
    return [(i, j) for i in range(len(ti)) for j in range(i) if ti[i] == ti[j] and not (c["f"], i) in reg.SORT and not (c["f"], j) in reg.SORT]


def shcase(s, n):
    c = reg.gen_case(s, [n], zero=False)
    ps = pairs_of(c)
    if not ps:
        return {"none": 1}
    c["pair"] = list(s.pick(ps))
    c["how"] = s.rng(0, 7)
    c["off"] = s.byte()
    c["lit"] = [[s.byte(), s.pick([0.0, float("nan"), float("inf"), -0.0, 1.0])] for _ in range(s.rng(0, 2) if s.chance(1, 2) else 0)]
    c["zero"] = s.chance(1, 6)
    c["all"] = s.chance(1, 4)
    if s.byte() % 4:        # equal shapes
        i, j = c["pair"]
        ins = reg.SIG[n][0]
        if ins[i] == ins[j]:
            big = max(c["ops"][i]["s"], c["ops"][j]["s"], key=len)
            if np.broadcast_shapes(tuple(c["ops"][i]["s"]), tuple(c["ops"][j]["s"])) == tuple(big):
                m = int(np.prod(big))
                for k in (i, j):
                    o = c["ops"][k]
                    o["v"] = (o["v"] * (m // max(len(o["v"]), 1) + 1))[:m]
                    o["s"] = list(big)
    return c


def shbody(c):
    if "none" in c:
        return ""
    xs = reg.build(c)
    i, j = c["pair"]
    a, b = xs[i], xs[j]
    ks = [k for k in range(len(xs)) if k in (i, j) or c["all"] and xs[k].dtype == a.dtype and (c["f"], k) not in reg.SORT]
    m = max(xs[k].size for k in ks)
    B = np.concatenate([a.ravel(), b.ravel(), a.ravel()[:2], *[xs[k].ravel() for k in ks if k not in (i, j)]])
    if c["zero"] and B.dtype.kind != "O":
        B[:] = 0
    for p, v in c["lit"]:
        if B.dtype.kind in "fc" and len(B):
            B[p % max(m, 1) % len(B)] = v
    how, vs = c["how"], list(xs)
    for q, k in enumerate(ks):
        n = xs[k].size
        o = 0 if how < 4 or q == 0 else min(c["off"] % 5 if how < 6 else c["off"] % (len(B) - n + 1), len(B) - n)
        w = B[o:o + n].reshape(xs[k].shape)         # a view
        if how == 7 and q:
            w = B[o:o + n][::-1].reshape(xs[k].shape) if xs[k].ndim == 1 else w
        assert n == 0 or np.shares_memory(w, B)
        vs[k] = w
    copies = [v.copy() for v in vs]
    what = f"{reg.describe(c, copies)}"
    try:
        base, err = reg.run(c, copies), None
    except Exception as e:
        base, err = None, e
    try:
        got = reg.run(c, vs)
    except Exception as e:
        if type(e) is type(err):
            return "raises"
        raise Violation(f"{what} with operands {ks} that share memory raised {e!r}, with copies {err!r}")
    if err is not None:
        raise Violation(f"{what} raised {err!r}, but not when the operands {ks} share memory")
    sc = reg.scale_of(copies)
    for k, (x, y, t) in enumerate(zip(got, base, reg.split(c["t"])[1])):
        x, y = reg.arr_of(x, t), reg.arr_of(y, t)
        if not reg.agree(x, y, sc):
            raise Violation(f"{what}: output {k} is {reg.pl(y)}, but {reg.pl(x)} when the operands {ks} are views of one array")
    return c["f"] + (" same" if a.shape == b.shape and how < 4 else "")


PAIRED = [n for n in NAMES if len(reg.SIG[n][0]) > 1]


def facets(tier):
    # every function gets its own stratum, so that none is starved
    strats = [src((lambda n: lambda s: dict_case(s, n))(n), 900) for n in NAMES]
    return [Facet("layouts", strats, body, 130 * len(NAMES), 8000 * len(NAMES), rule="some operand has more than one element; labelled by function"),
            Facet("long", [src((lambda n: lambda s: lays(s, reg.long_case(s, [n])))(n), 900) for n in NAMES], body, 60 * len(NAMES), 2000 * len(NAMES),
                  rule="one core or batch dimension of 64 to 8193 elements; labelled by function"),
            Facet("shared operands", [src((lambda n: lambda s: shcase(s, n))(n), 900) for n in PAIRED], shbody, 80 * len(PAIRED), 4000 * len(PAIRED),
                  rule="two or more operands are the same array or overlapping views; labelled by function, 'same' for the same elements")]


def dict_case(s, n):
    return lays(s, reg.gen_case(s, [n]))


def lays(s, c):
    c["lay"] = [gen_lay(s, len(o["s"])) for o in c["ops"]]
    c["ol"] = [gen_lay(s, len(sh)) for sh in reg.out_shapes(c)] if s.byte() % 2 else None
    return c
