"""Side effects: inputs, surroundings of out, previous contents of out, aliasing."""
import numpy as np
from core import Facet, Probe, Violation
import reg
from arr import poison, same
from gen import src
from p01 import view, gen_lay

TECHNIQUE = "invariants over generated call histories: byte images of inputs and of the memory around out, repeated calls, different previous contents, in-place calls"
NOTE = ("Every ufunc and gufunc with every loop: all inputs must be unchanged byte for byte, nothing around a strided out may change, the result must not "
        "depend on what out held (poison, zeros, results of the same data in reverse order) or on calls of other functions in between, and out may be one of the inputs, or overlap it at any offset; core lengths up to 8193.")
NAMES = [n for n in reg.NAMES if n not in reg.CONTIG]


def image(a):
    return [id(v) for v in a.ravel()] if a.dtype.kind == "O" else a.tobytes()


def mkcase(s, n, long=False):
    c = reg.long_case(s, [n]) if long else reg.gen_case(s, [n])
    c["ol"] = [gen_lay(s, len(sh)) for sh in reg.out_shapes(c)]
    for L in c["ol"]:
        L["k"] = 0
    c["other"] = reg.gen_case(s, dmax=3) if s.byte() % 3 == 2 else None
    return c


def ibody(c):
    xs = reg.build(c)
    imgs = [image(x) for x in xs]
    to = reg.split(c["t"])[1]
    what = lambda: reg.describe(c)
    shapes = reg.out_shapes(c)
    results = []
    errs = []
    for rnd in range(4):
        outs, raws, surround = [], [], []
        for sh, t, L in zip(shapes, to, c["ol"]):
            v, raw = view(sh, t, L)
            m = np.ones(raw.shape, dtype=bool)
            mv, _ = None, None
            if rnd == 1 and v.size:
                if t == "O":
                    v[...] = 12345
                else:
                    v[...] = np.zeros((), dtype=t)
            if c["f"] in reg.ACC:
                v[...] = 0
            outs.append(v)
            raws.append(raw)
        if rnd == 3 and c["f"] not in reg.ACC:
            # out holds the results (for objects: the very objects) of the same data in another order
            try:
                reg.run(c, [x[..., ::-1] if p else x for x, p in zip(xs, reg.SIG[c["f"]][0])], outs)
            except Exception:
                pass
        own = [mark(sh, t, L) for sh, t, L in zip(shapes, to, c["ol"])]
        before = [image(raw[m]) for raw, m in zip(raws, own)]
        try:
            r = reg.run(c, xs, outs if rnd != 2 or reg.needs_out(c["f"]) else None)
            errs.append(None)
        except Exception as e:
            errs.append(e)
            r = None
        for i, x in enumerate(xs):
            if image(x) != imgs[i]:
                raise Violation(f"{what()} changed its input {i} to {reg.pl(x)}")
        for raw, m, b in zip(raws, own, before):
            if image(raw[m]) != b:
                raise Violation(f"{what()} wrote outside out (strides {[o.strides for o in outs]})")
        if r is not None:
            results.append([reg.arr_of(a, t).copy() for a, t in zip(r, to)])
        if c["other"] is not None and rnd == 0:
            try:
                reg.run(c["other"], reg.build(c["other"]))
            except Exception:
                pass
    if len({type(e) for e in errs}) > 1:
        raise Violation(f"{what()}: repeated calls do not agree: {errs}")
    for k, t in enumerate(to):
        for rs in results[1:]:
            if not same(rs[k], results[0][k]):
                raise Violation(f"{what()}: output {k} is {reg.pl(results[0][k])}, then, with another previous content of out or in a repeated "
                                f"call, {reg.pl(rs[k])}")
    return c["f"] if results and results[0][0].size else ""


def mark(sh, t, L):
    """which elements of the memory returned by `view` are not part of the view"""
    v, raw = view(sh, "b" if t != "O" else "b", dict(L, k=0))
    raw[...] = 1
    v[...] = 0
    return raw.astype(bool)


def alias_ok(n):
    ins, outs = reg.SIG[n]
    return n not in reg.CONTIG and n not in reg.ACC and not reg.needs_out(n) and any(p == q for p in ins for q in outs)


# known finding (see known_findings.txt): backlash_sum keeps its working state in `final`
KNOWN = {("backlash_sum", 1, 1), ("backlash_sum", 2, 1)}


def probe():
    import ufunclab as u
    x, w, d, i = [1.0, 2.0], np.array([0.5, 2.0]), np.array([1.0, 0.5]), [0.0, 0.0]
    want = u.backlash_sum(x, w, d, i)
    w1, d1 = w.copy(), d.copy()
    a = u.backlash_sum(x, w1, d, i, out=(None, w1))
    b = u.backlash_sum(x, w, d1, i, out=(None, d1))
    for k in range(2):
        for r in (a, b):
            if not np.array_equal(r[k], want[k]):
                raise Violation(f"backlash_sum with w or deadband given as out for final: {r}, out of place {want}")


PROBES = [Probe("backlash_sum-final-alias", probe)]
ANAMES = [n for n in NAMES if alias_ok(n)]


def acase(s, n, long=False):
    c = reg.long_case(s, [n]) if long else reg.gen_case(s, [n])
    # every operand gets the full batch shape
    b = list(reg.batch_of(c))
    c["in"], c["o"] = s.byte(), s.byte()
    c["off"] = s.near0(3) if s.byte() % 2 else 0
    c["rev"] = s.byte() % 4 == 3
    return c


def abody(c):
    ins, outs = reg.SIG[c["f"]]
    ti, to = reg.split(c["t"])
    xs = reg.build(c)
    shapes = reg.out_shapes(c)
    pairs = [(i, k) for i, p in enumerate(ins) for k, q in enumerate(outs) if p == q and ti[i] == to[k] and xs[i].shape == shapes[k]
             and (c["f"], i, k) not in KNOWN]
    if not pairs:
        return ""
    i, k = pairs[c["in"] % len(pairs)]
    what = f"{reg.describe(c)} with operand {i} given as output {k}"
    try:
        base = [reg.arr_of(a, t).copy() for a, t in zip(reg.run(c, [x.copy() for x in xs]), to)]
    except Exception:
        return ""
    x = xs[i]
    off = c["off"]
    args = [a.copy() for a in xs]
    outl = reg.mkout(c)
    if x.ndim == 0:
        return ""
    if off == 0:
        buf = x.copy()
        args[i] = buf
        outl[k] = buf[::-1] if c["rev"] and buf.ndim == 1 and ins[i] == [] else buf
    else:
        # views of one buffer, shifted along the first axis
        big = poison((x.shape[0] + abs(off),) + x.shape[1:], x.dtype)
        a = big[max(off, 0):max(off, 0) + x.shape[0]]
        o = big[max(-off, 0):max(-off, 0) + x.shape[0]]
        a[...] = x
        args[i], outl[k] = a, o
    try:
        r = reg.run(c, args, outl)
    except Exception as e:
        raise Violation(f"{what} (offset {off}) raised {type(e).__name__}: {e}")
    for q, (a, b, t) in enumerate(zip(r, base, to)):
        if not reg.agree(reg.arr_of(a, t).astype(b.dtype), b, reg.scale_of(xs)):
            raise Violation(f"{what} (offset {off}): output {q} is {reg.pl(a)}, out of place {reg.pl(b)}")
    return c["f"] if x.size > 1 else ""


def facets(tier):
    s1 = [src((lambda n: lambda s: mkcase(s, n))(n), 1100) for n in NAMES]
    s2 = [src((lambda n: lambda s: acase(s, n))(n), 700) for n in ANAMES]
    return [Facet("effects", s1, ibody, 90 * len(NAMES), 4000 * len(NAMES), rule="an output element exists; labelled by function"),
            Facet("aliasing", s2, abody, 150 * len(ANAMES), 5000 * len(ANAMES), rule="operand and output share memory and have several elements; by function"),
            Facet("long effects", [src((lambda n: lambda s: mkcase(s, n, True))(n), 1100) for n in NAMES], ibody, 40 * len(NAMES), 1000 * len(NAMES),
                  rule="one dimension of 64 to 8193 elements; labelled by function"),
            Facet("long aliasing", [src((lambda n: lambda s: acase(s, n, True))(n), 700) for n in ANAMES], abody, 60 * len(ANAMES), 1000 * len(ANAMES),
                  rule="one dimension of 64 to 8193 elements; labelled by function")]
