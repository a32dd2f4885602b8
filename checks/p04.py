"""Arbitrary values, lengths and layouts, under AddressSanitizer."""
import numpy as np
import ufunclab as u
from core import Facet, Violation
import reg
from arr import poison
from gen import src
from p01 import gen_lay, perm

BUILD = "asan"
BUDGET = (200, 700)
TECHNIQUE = "fuzzing with structured generators of an AddressSanitizer build; the oracle is the sanitizer, the exit status, and that only Python exceptions come out"
NOTE = ("Every ufunc and gufunc with every loop, and the Python wrappers; arrays of 0 to 24 (and up to 8193) elements per axis placed in allocations of exactly their extent, with any "
        "strides and order; nan, infinities, subnormals, extreme integers, out-of-range indices, counts and comparison codes. sosfilter_ic_contig with contiguous arrays only.")


def tight(shape, dt, L):
    """A strided array in an allocation that ends where the array does."""
    dt = np.dtype(dt)
    nd = len(shape)
    if 0 in shape or nd == 0:
        return np.zeros(shape, dtype=dt)
    st = (L["st"] + [1] * nd)[:nd]
    e, off, strides = 1, 0, [0] * nd
    for a in reversed(perm(nd, L["p"])):
        q = abs(st[a]) * e
        e += q * (shape[a] - 1)
        strides[a] = q if st[a] > 0 else -q
        if st[a] < 0:
            off += q * (shape[a] - 1)
        if L["bc"] % 7 == 6 and a == 0:         # a step that is no multiple of the previous extent
            e += 1
    buf = poison((e,), dt)
    return np.lib.stride_tricks.as_strided(buf[off:], shape, [q * dt.itemsize for q in strides])


def case(s, n, long=False):
    c = reg.long_case(s, [n], nasty=True, need=False) if long else reg.gen_case(s, [n], nasty=True, need=False, style=None)
    c["lay"] = [gen_lay(s, len(o["s"])) for o in c["ops"]]
    c["ol"] = [gen_lay(s, len(sh)) for sh in reg.out_shapes(c)] if s.byte() % 2 else None
    if s.byte() % 4 == 3:       # no batch: many loops have a special case for one core problem
        pass
    return c


ALLOWED = (ValueError, TypeError, OverflowError, ZeroDivisionError, IndexError, ArithmeticError, MemoryError)


def body(c):
    xs = reg.build(c)
    vs = []
    for x, L in zip(xs, c["lay"]):
        if c["f"] in reg.CONTIG:
            vs.append(x)
            continue
        v = tight(x.shape, x.dtype, L)
        v[...] = x
        vs.append(v)
    to = reg.split(c["t"])[1]
    outs = None
    if c["ol"] is not None or reg.needs_out(c["f"]):
        ol = c["ol"] or [{"p": 0, "st": [], "k": 0, "bc": 0}] * len(to)
        outs = []
        for sh, t, L in zip(reg.out_shapes(c), to, ol):
            v = np.zeros(sh, dtype=t) if c["f"] in reg.CONTIG else tight(sh, t, L)
            if c["f"] in reg.ACC:
                v[...] = 0
            outs.append(v)
    try:
        reg.run(c, vs, outs)
    except ALLOWED:
        return "exception"
    except Exception as e:
        raise Violation(f"{reg.describe(c)}: {type(e).__name__}: {e}")
    return c["f"] if all(x.size for x in xs) else "empty"


# ------------------------------------------------------------------ wrappers
IDT = "bBhHiIlL"


def arrcase(s, dts, nmax=6):
    dt = s.pick(dts)
    nd = s.pick([0, 1, 1, 2, 3])
    sh = [s.rng(0, nmax) for _ in range(nd)]
    style = s.byte() % 3
    n = int(np.prod(sh))
    if style == 0:
        v = [s.small(dt) for _ in range(n)]
    elif style == 1:
        v = [s.rng(0, 100) for _ in range(n)]
    else:
        v = [s.value(dt, nan=True, inf=True) for _ in range(n)]
    return {"dt": dt, "s": sh, "v": v, "L": gen_lay(s, nd)}


def mkarr(o):
    x = reg.mk_flat(o["v"], o["dt"]).reshape(o["s"])
    v = tight(x.shape, x.dtype, o["L"])
    v[...] = x
    return v


def wcase(s):
    w = s.pick(["bincount", "bincount", "bincount", "one_hot", "one_hot", "convert_to_base", "convert_to_base", "nextn_less", "nextn_greater", "gendot", "axis"])
    c = {"w": w}
    if w == "bincount":
        c["x"] = arrcase(s, IDT)
        c["weights"] = arrcase(s, "fd") if s.byte() % 3 == 1 else "same" if s.byte() % 2 else None
        c["m"] = s.pick([None, 0, 1, s.rng(0, 40), -1, -(1 << 62)])
        c["axis"] = s.pick([-1, -1, -1, 0, 1, -2, 5])
        c["out"] = arrcase(s, "lld") if s.byte() % 4 == 3 else None
    elif w == "one_hot":
        c["x"] = arrcase(s, IDT)
        c["n"] = s.pick([0, 1, 5, s.rng(0, 40), -1, -5])
        c["axis"] = s.pick([-1, -1, -1, 0, 1, -2, 5])
        c["out"] = arrcase(s, "l") if s.byte() % 4 == 3 else None
    elif w == "convert_to_base":
        c["x"] = arrcase(s, IDT)
        c["base"] = arrcase(s, IDT) if s.byte() % 2 else s.pick([2, 10, 1, 0, -1, -2, 1 << 40, 255])
        c["n"] = s.pick([0, 1, 4, s.rng(0, 70), -1])
        c["axis"] = s.pick([-1, -1, -1, 0, 1, -2, 5])
        c["out"] = arrcase(s, IDT) if s.byte() % 4 == 3 else None
    elif w.startswith("nextn"):
        c["x"] = arrcase(s, "efdgl")
        c["n"] = s.pick([0, 1, 4, s.rng(0, 40), -1])
        c["axis"] = s.pick([-1, -1, -1, 0, 1, -2, 5])
        c["out"] = arrcase(s, "fd") if s.byte() % 4 == 3 else None
    elif w == "gendot":
        c["p"] = s.pick(["multiply", "add", "minimum", "logical_and", "bitwise_and", "left_shift", "floor_divide", "power", "less", "arctan2"])
        c["q"] = s.pick(["add", "maximum", "logical_or", "bitwise_xor", "multiply", "argmax", "peaktopeak", "minmax", "all_same", "vnorm"])
        c["x"], c["y"] = arrcase(s, "bBhHiIlLfdg?", 4), arrcase(s, "bBhHiIlLfdg?", 4)
        if s.byte() % 2:
            c["y"]["s"] = c["x"]["s"]
            c["y"]["v"] = (c["y"]["v"] + c["x"]["v"])[:len(c["x"]["v"])]
            c["y"]["v"] += [0] * (len(c["x"]["v"]) - len(c["y"]["v"]))
    else:
        c["f"] = s.pick([n for n in reg.NAMES if reg.FUNCS[n].signature and not reg.needs_out(n) and n not in reg.CONTIG])
        c["xs"] = [arrcase(s, "bhlfdgd", 4) for _ in range(reg.FUNCS[c["f"]].nin)]
        c["axis"] = s.pick([0, 1, -1, -2, -3, 2, 7])
        c["kw"] = s.byte() % 4
    return c


def wbody(c):
    w = c["w"]
    A = lambda o: None if o is None else mkarr(o)
    try:
        with np.errstate(all="ignore"):
            if w == "bincount":
                kw = {}
                x = A(c["x"])
                if c["weights"] == "same":
                    kw["weights"] = np.ones(x.shape)
                elif c["weights"] is not None:
                    kw["weights"] = A(c["weights"])
                if c["m"] is not None:
                    kw["m"] = c["m"]
                elif x.size and np.abs(x.astype("d")).max() > 1000:
                    return ""           # a legitimate request for a huge result
                if c["out"] is not None:
                    kw["out"] = A(c["out"])
                u.bincount(x, axis=c["axis"], **kw)
            elif w in ("one_hot", "nextn_less", "nextn_greater"):
                kw = {} if c["out"] is None else {"out": A(c["out"])}
                getattr(u, w)(A(c["x"]), c["n"], axis=c["axis"], **kw)
            elif w == "convert_to_base":
                kw = {} if c["out"] is None else {"out": A(c["out"])}
                u.convert_to_base(A(c["x"]), A(c["base"]) if isinstance(c["base"], dict) else c["base"], c["n"], axis=c["axis"], **kw)
            elif w == "gendot":
                p = getattr(np, c["p"])
                q = getattr(np, c["q"], None) if not hasattr(u, c["q"]) else getattr(u, c["q"])
                u.gendot(p, q)(A(c["x"]), A(c["y"]))
            else:
                kw = [{}, {"axis": c["axis"]}, {"axis": c["axis"], "keepdims": True}, {"keepdims": True}][c["kw"]]
                reg.FUNCS[c["f"]](*[A(o) for o in c["xs"]], **kw)
    except ALLOWED:
        return w + " raises"
    except Exception as e:
        raise Violation(f"{c}: {type(e).__name__}: {e}")
    return w


def facets(tier):
    st = [src((lambda n: lambda s: case(s, n))(n), 700) for n in reg.NAMES]
    return [Facet("calls", st, body, 250 * len(reg.NAMES), 20000 * len(reg.NAMES), rule="every call counts; labelled by function, 'empty' or 'exception'"),
            Facet("long", [src((lambda n: lambda s: case(s, n, True))(n), 700) for n in reg.NAMES], body, 80 * len(reg.NAMES), 3000 * len(reg.NAMES),
                  rule="one dimension of 64 to 8193 elements; labelled by function, 'empty' or 'exception'"),
            Facet("wrappers", src(wcase, 500), wbody, 8000, 400000, rule="the wrapper was called; labelled by wrapper and outcome")]
