"""Broadcasting, axes, keepdims and out against one call per core problem."""
import numpy as np
from core import Facet, Violation
import reg
from arr import poison, lay
from gen import src

TECHNIQUE = "metamorphic: one call on broadcast arrays with axes, keepdims, out or where against a separate call for every core problem"
NOTE = ("Every ufunc and gufunc with every loop; batch shapes of up to three dimensions including zero, operands broadcast independently, core axes moved "
        "anywhere, operands and out in nine memory layouts with poisoned content, keepdims, operands repeated by a stride of zero, where masks (element-wise functions), repeated evaluation of mixed batches, long core dimensions and batches.")
BATCHES = [[1], [2], [3], [2, 3], [3, 1], [1, 2, 2], [2, 1, 2], [4], [6], [2, 2, 3], [0], [2, 0], [5], [17]]


def mkcase(s, n, long=False):
    c = reg.long_case(s, [n]) if long else reg.gen_case(s, [n], batches=BATCHES, dmax=6)
    ins, outs = reg.SIG[n]
    c["ax"] = [[s.byte() for _ in p] for p in ins + outs] if s.byte() % 2 else None
    c["out"] = s.byte() % 2
    c["keep"] = s.byte() % 4 == 3
    c["lay"] = [s.byte() % 9 if s.byte() % 2 else 0 for _ in ins]
    c["ol"] = s.byte() % 8 if s.byte() % 2 else 0
    c["where"] = [s.byte() & 1 for _ in range(12)] if s.byte() % 3 == 2 else None
    c["zero"] = s.byte() % 16 if s.byte() % 4 == 3 else 0
    return c


def body(c):
    f = reg.FUNCS[c["f"]]
    ins, outs = reg.SIG[c["f"]]
    to = reg.split(c["t"])[1]
    xs = reg.build(c)
    batch = reg.batch_of(c)
    oshapes = reg.out_shapes(c)
    if c.get("zero") and all(batch) and c["f"] not in reg.CONTIG:
        # One core problem repeated by a stride of zero along the whole batch.
        xs = [np.broadcast_to(x[(slice(0, 1),) * (x.ndim - len(p))], tuple(batch) + x.shape[x.ndim - len(p):]) if c["zero"] >> i & 1 else x
              for i, (x, p) in enumerate(zip(xs, ins))]
    what = lambda: reg.describe(c, xs)
    # reference: one call per core problem, on fresh contiguous copies
    full = [np.broadcast_to(x, batch + x.shape[x.ndim - len(p):]) for x, p in zip(xs, ins)]
    ref = [np.zeros(sh, dtype=t) for sh, t in zip(oshapes, to)]
    err = None
    try:
        for ix in np.ndindex(*batch):
            cores = []
            for a, t in zip(full, reg.split(c["t"])[0]):
                e = a[ix]
                if not isinstance(e, np.ndarray):
                    q = np.empty((), dtype=t)
                    q[()] = e
                    e = q
                cores.append(np.array(e, order="C", copy=True))
            o = None
            if reg.needs_out(c["f"]):
                o = [np.zeros(sh[len(batch):], dtype=t) if c["f"] in reg.ACC else poison(sh[len(batch):], t) for sh, t in zip(oshapes, to)]
            for r, g, t in zip(ref, reg.run(c, cores, o), to):
                g = reg.arr_of(g, t)
                if g.shape != r[ix].shape if isinstance(r[ix], np.ndarray) else g.shape != ():
                    raise Violation(f"{c['f']}[{c['t']}] of one core problem: shape {g.shape}")
                if g.dtype != r.dtype:
                    raise Violation(f"{what()}: dtype {g.dtype} for one core problem, expected {r.dtype}")
                r[ix] = g[()]
    except Violation:
        raise
    except Exception as e:
        err = e
    kw = {}
    args = list(xs)
    oaxes = None
    gu = f.signature is not None
    if gu and c["ax"] is not None and c["f"] not in reg.CONTIG:
        axes = []
        for i, p in enumerate(ins):
            nd = args[i].ndim
            dest = []
            free = list(range(nd))
            for k, d in enumerate(p):
                j = free.pop(c["ax"][i][k] % len(free))
                dest.append(j)
            args[i] = np.moveaxis(args[i], list(range(nd - len(p), nd)), dest) if p else args[i]
            axes.append(tuple(d - nd if c["ax"][i][0] & 64 else d for d in dest) if p else ())
        oaxes = []
        for k, (p, sh) in enumerate(zip(outs, oshapes)):
            nd = len(sh)
            free = list(range(nd))
            dest = []
            for q in range(len(p)):
                dest.append(free.pop(c["ax"][len(ins) + k][q] % len(free)))
            oaxes.append(dest)
            axes.append(tuple(dest))
        kw["axes"] = axes
    if c.get("lay") and c["f"] not in reg.CONTIG:
        args = [lay(a, k) if k else a for a, k in zip(args, c["lay"])]
    keep = gu and c["keep"] and oaxes is None and all(len(p) == 0 for p in outs) and len({len(p) for p in ins}) == 1 and len(ins[0]) > 0
    if keep:
        kw["keepdims"] = True
    dest_outs = None
    if (c["out"] or reg.needs_out(c["f"])) and not keep:
        dest_outs = []
        for k, o in enumerate(reg.mkout(c)):
            if oaxes is not None and outs[k]:
                nd = o.ndim
                o = np.moveaxis(o, list(range(nd - len(outs[k]), nd)), oaxes[k]).copy()
            if c.get("ol") and c["f"] not in reg.CONTIG | reg.ACC and o.ndim:
                o = lay(o, [1, 2, 4, 5, 6, 7, 3][c["ol"] - 1])
            dest_outs.append(o)
    mask = None
    if not gu and c["where"] is not None and batch and all(batch):
        mask = np.array([c["where"][i % 12] for i in range(int(np.prod(batch)))], dtype=bool).reshape(batch)
        dest_outs = dest_outs or reg.mkout(c)
        before = [o.copy() for o in dest_outs]
        kw["where"] = mask
    try:
        got = reg.run(c, args, dest_outs, **kw)
    except Exception as e:
        if err is not None:
            return ""
        raise Violation(f"{what()} with {kw} raised {type(e).__name__}: {e}")
    if err is not None:
        if 0 in batch:
            return ""
        raise Violation(f"{what()}: a core problem raises {err!r}, the whole call does not")
    sc = reg.scale_of(xs)
    for k, (a, r, t) in enumerate(zip(got, ref, to)):
        a = reg.arr_of(a, t)
        if dest_outs is not None and a.ndim and a is not dest_outs[k]:
            raise Violation(f"{what()}: the returned array is not the given out")
        if oaxes is not None and outs[k]:
            a = np.moveaxis(a, oaxes[k], list(range(a.ndim - len(outs[k]), a.ndim)))
        if keep:
            if a.shape != r.shape + (1,) * len(ins[0]):
                raise Violation(f"{what()}, keepdims=True: shape {a.shape}, expected {r.shape + (1,) * len(ins[0])}")
            a = a.reshape(r.shape)
        if not a.dtype.isnative:
            a = a.astype(a.dtype.newbyteorder("="))
        if a.shape != r.shape or a.dtype != r.dtype:
            raise Violation(f"{what()} with {kw}: {a.dtype}{a.shape}, expected {r.dtype}{r.shape}")
        if mask is not None:
            r = np.where(mask, r, before[k])
        if not reg.agree(a, r, sc):
            raise Violation(f"{what()} with {kw}{', out' if dest_outs else ''}: output {k} is {reg.pl(a)}, separate calls give {reg.pl(r)}")
    return c["f"] if int(np.prod(batch)) > 1 else ""


def facets(tier):
    strats = [src((lambda n: lambda s: mkcase(s, n))(n), 1000) for n in reg.NAMES]
    return [Facet("broadcast", strats, body, 100 * len(reg.NAMES), 5000 * len(reg.NAMES), rule="more than one core problem; labelled by function"),
            Facet("long", [src((lambda n: lambda s: mkcase(s, n, True))(n), 1000) for n in reg.NAMES], body, 40 * len(reg.NAMES), 1000 * len(reg.NAMES),
                  rule="more than one core problem, one dimension of 64 to 8193 elements; labelled by function")]
