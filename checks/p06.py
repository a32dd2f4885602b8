"""Type loops against each other."""
import numpy as np
from core import Facet, Violation
import loops as table
import reg
from gen import src

TECHNIQUE = "differential: every type loop (and promoted mixtures of types) against the widest loop, within its sensitivity to relative changes of the inputs by its own epsilon"
NOTE = ("Every function with more than one loop; operands that all of the compared types hold exactly (small integers, quarters, float32 values up to 2**12). "
        "Exact equality for integer results; floating results within 64 eps of the type plus 8 times the largest change of the widest loop under 8 "
        "perturbations of the inputs by 1 eps, which makes comparisons at discontinuities weak but sound. Which loop runs: for operands of all combinations of types, "
        "the result type must be that of a smallest loop that holds them, from a table of the loops a user can rely on plus those registered.")
EPS = {"e": 2.0 ** -10, "f": 2.0 ** -23, "d": 2.0 ** -52, "g": 2.0 ** -63, "F": 2.0 ** -23, "D": 2.0 ** -52, "G": 2.0 ** -63}
TINY = {"f": 1e-35, "d": 1e-300, "g": 1e-300, "F": 1e-35, "D": 1e-300, "G": 1e-300, "e": 1e-4}
MAXF = {"f": 1e37, "d": 1e307, "g": 1e307, "F": 1e37, "D": 1e307, "G": 1e307, "e": 1e4}
RANK = "?bBhHiIlLqQefdgFDG"


def widest(n, cplx):
    ls = reg.LOOPS[n]
    for ch in ("GDF" if cplx else "gdflLiI"):
        for t in ls:
            if ch in reg.split(t)[0]:
                return t
    return ls[-1]


def has(n, cplx):
    return any((set("FDG") & set(t)) or not cplx for t in reg.LOOPS[n])


# differences of unsigned integers wrap around, so this product legitimately depends on the type
NAMES = [n for n in reg.NAMES if len(reg.LOOPS[n]) > 1 and n != "gendot(subtract,argmax)"]
# functions whose terms may cancel: error relative to this power of the largest operand
DEGREE = {"tri_area": 2, "tri_area_indexed": 2, "semivar.exponential": 1, "semivar.linear": 1, "semivar.parabolic": 1, "semivar.spherical": 1,
          "smoothstep3": 1, "smoothstep5": 1, "invsmoothstep3": 1, "linearstep": 1, "step": 1, "trapezoid_pulse": 1, "linear_interp1d": 1, "hysteresis_relay": 1}
CN = [n for n in NAMES if has(n, True)]
ONLYC = [n for n in CN if all(set("FDG") & set(t) for t in reg.LOOPS[n])]


def case(s, n):
    cplx = n in ONLYC or n in CN and s.byte() % 3 == 2
    t = widest(n, cplx)
    ti = reg.split(t)[0]
    ins, outs = reg.SIG[n]
    dims = {}
    for p in ins + outs:
        for d in p:
            if d not in dims:
                dims[d] = int(d) if d.isdigit() else s.rng(max(1, reg.NEED.get(n, 1)), 6)
    if n == "tri_area_indexed":
        dims["m"] = max(4, dims["m"])
    B = s.rng(1, 3)
    style = s.byte() % 4
    k = s.pick([1, 3, 9, 100])

    def num():
        if style == 0:
            return float(s.rng(0, k))
        if style == 1:
            return float(s.near0(k))
        if style == 2:
            return s.near0(4 * k) / 4
        v = (s.bits(3) / 2 ** 24 + 1) * 2.0 ** s.near0(6)
        v = float(np.float32(v))
        return -v if s.byte() % 4 == 3 else v
    ops = []
    for i, p in enumerate(ins):
        sh = [B] + [dims[d] for d in p]
        g = reg.SPECIAL.get((n, i))
        m = int(np.prod(sh))
        if g is not None:
            v = [float(g(s, ti[i] if ti[i] in "bBhHiIlLqQ" else "l")) for _ in range(m)]
            v = [min(x, 100.0) for x in v]
        elif ti[i] in "FDG":
            v = [[num(), num()] for _ in range(m)]
        else:
            v = [abs(num()) if "hmean" in n else num() for _ in range(m)]       # reciprocals that cancel are ill-conditioned
        ops.append({"s": sh, "v": v})
    return {"f": n, "t": t, "dims": dims, "ops": ops, "r": s.bits(4), "mix": [s.byte() for _ in ins]}


def cast(c, t, first=0):
    """operands in the types of loop t, or None when some value is not representable"""
    xs = []
    for i, (o, ch) in enumerate(zip(c["ops"], t)):
        if ch in "FDG":
            ref = np.array([complex(v[0], v[1]) if isinstance(v, list) else v for v in o["v"]], dtype="D").reshape(o["s"])
            xs.append(ref.astype(ch))
            continue
        if o["v"] and isinstance(o["v"][0], list):
            return None
        ref = np.array(o["v"], dtype="d").reshape(o["s"])
        if ch == "O":
            a = np.empty(ref.shape, dtype=object)
            for idx in np.ndindex(*ref.shape):
                a[idx] = int(ref[idx]) if ref[idx] == int(ref[idx]) else float(ref[idx])
        else:
            if ch in "bBhHiIlLqQ?":
                ii = np.iinfo(ch) if ch != "?" else None
                lo, hi = (0, 1) if ch == "?" else (float(ii.min), float(ii.max))
                if ref.size and (ref.min() < lo or ref.max() > hi or (ref != np.floor(ref)).any()):
                    return None
            with np.errstate(all="ignore"):
                a = ref.astype(ch)
            if not (a.astype("d") == ref).all():
                return None
        if (c["f"], first + i) in reg.SORT:
            a = np.sort(a, axis=-1)
        xs.append(a)
    return xs


def run(c, xs, t):
    c2 = dict(c, t=t)
    with np.errstate(all="ignore"):
        return reg.run(c2, xs)


def wide(a):
    if a.dtype.kind == "c":
        return a.astype("G")
    if a.dtype.kind == "O":
        return np.array([np.longdouble(v) for v in a.ravel()], dtype="g").reshape(a.shape)
    return a.astype("g")


def eps_of(t):
    ti, to = reg.split(t)
    e = [EPS[ch] for ch in ti + to if ch in EPS]
    return max(e) if e else 2.0 ** -52


def perturbed(c, base, eps, rng):
    ti = reg.split(c["t"])[0]
    res = []
    for q in range(8):
        xs = []
        for i, (x, ch) in enumerate(zip(base, ti)):
            if ch in "fdgFDG":
                sgn = {0: 1.0, 1: -1.0}.get(q)
                d = np.full(x.shape, sgn) if sgn else rng.choice([-1.0, 1.0], size=x.shape)
                if q >= 5 and i % 2:
                    d = 0 * d
                y = x * (1 + d.astype(x.real.dtype) * x.real.dtype.type(eps)) + (d * 1e-30).astype(x.real.dtype)
                if (c["f"], i) in reg.SORT:
                    y = np.sort(y, axis=-1)
                xs.append(y)
            else:
                xs.append(x)
        try:
            res.append([wide(np.asarray(r)) for r in run(c, xs, c["t"])])
        except Exception:
            res.append(None)
    return res


def compare(c, what, got, want, t, pert):
    to = reg.split(t)[1]
    eps = eps_of(t)
    slack = 0.0
    if c["f"] in DEGREE:
        slack = 64 * eps * max([abs(v) for o in c["ops"] for v in o["v"]], default=0.0) ** DEGREE[c["f"]]
    if c["f"].startswith("tri_area"):
        slack *= eps ** -0.5        # of a degenerate triangle
    for k, (a, w) in enumerate(zip(got, want)):
        ch = a.dtype.char
        g = wide(a)
        with np.errstate(all="ignore"):
            if ch in "?bBhHiIlLqQ" or ch == "O" and c["t"][-1] not in EPS:
                sp = np.zeros(w.shape, dtype=bool)
                for p in pert:
                    sp |= (p[k] != w) if p is not None else True
                bad = (g != w) & ~sp
            else:
                tol = slack + 64 * eps * abs(w) + TINY.get(ch, 1e-300)
                odd = np.zeros(w.shape, dtype=bool)
                for p in pert:
                    if p is None:
                        odd |= True
                        continue
                    d = abs(p[k] - w)
                    odd |= np.isfinite(p[k]) != np.isfinite(w)
                    tol = np.maximum(tol, slack + 64 * eps * abs(w) + 8 * np.where(np.isfinite(d), d, 0) + TINY.get(ch, 1e-300))
                fin = np.isfinite(w)
                bad = np.where(fin, ~(abs(g - w) <= tol), ~((g == w) | ((g != g) & (w != w))))
                bad &= ~odd
                bad &= ~(fin & (abs(w) > MAXF.get(ch, 1e307)))
        if bad.any():
            idx = tuple(int(v) for v in np.argwhere(bad)[0])
            raise Violation(f"{what}: output {k} at {idx} is {a[idx]}, the {c['t']} loop gives {w[idx]}")


def body(c):
    base = cast(c, reg.split(c["t"])[0])
    if base is None:
        return ""
    try:
        want = run(c, base, c["t"])
        err = None
    except Exception as e:
        want, err = None, e
    if want is not None:
        want = [wide(reg.arr_of(r, ch)) for r, ch in zip(want, reg.split(c["t"])[1])]
    perts = {}
    n = 0

    def pert(eps):
        if eps not in perts:
            perts[eps] = perturbed(c, base, eps, np.random.default_rng(c["r"]))
        return perts[eps]
    for t in reg.LOOPS[c["f"]]:
        if t == c["t"]:
            continue
        ti, to = reg.split(t)
        xs = cast(c, ti)
        if xs is None:
            continue
        what = f"{c['f']}[{t}]({', '.join(reg.pl(x) for x in xs)})"
        try:
            got = run(c, xs, t)
        except Exception as e:
            if err is not None and type(e) is type(err):
                continue
            raise Violation(f"{what} raised {type(e).__name__}: {e}; the {c['t']} loop did not")
        if err is not None:
            raise Violation(f"{what} did not raise, the {c['t']} loop raised {err!r}")
        got = [reg.arr_of(r, ch) for r, ch in zip(got, to)]
        for a, ch in zip(got, to):
            if a.dtype.char != ch and a.dtype != np.dtype(ch):
                raise Violation(f"{what} has dtype {a.dtype}, the loop says {ch}")
        compare(c, what, got, want, t, pert(eps_of(t)))
        n += 1
    # a mixture of types
    if err is None and not reg.needs_out(c["f"]):
        mix = []
        for i, b in enumerate(c["mix"]):
            for ch in (RANK[b % len(RANK):] + RANK[:b % len(RANK)]):
                one = cast(dict(c, ops=[c["ops"][i]]), ch, i)
                if one is not None and (ch not in "FDG" or c["t"][i] in "FDG"):
                    mix.append(one[0])
                    break
        if len(mix) == len(base):
            what = f"{c['f']}({', '.join(reg.pl(x) + ':' + x.dtype.char for x in mix)})"
            f = reg.FUNCS[c["f"]]
            loops = [t for t in reg.LOOPS[c["f"]] if all(np.can_cast(x.dtype, ch) for x, ch in zip(mix, reg.split(t)[0]))]
            try:
                with np.errstate(all="ignore"):
                    got = f(*mix)
            except TypeError:
                if loops:
                    raise Violation(f"{what} raised TypeError, but the loop {loops[0]} takes these types")
                return f"{c['f']}" if n else ""
            got = [got] if f.nout == 1 else list(got)
            if loops:
                t = None
                for q in smallest(c["f"], [x.dtype for x in mix]) or loops:
                    if all(np.asarray(a).dtype == np.dtype(ch) for a, ch in zip(got, reg.split(q)[1])):
                        t = q
                        break
                if t is None:
                    raise Violation(f"{what} has dtypes {[np.asarray(a).dtype for a in got]}, the smallest loops that take these types are {smallest(c['f'], [x.dtype for x in mix])}")
                if "O" not in t:
                    e = max([eps_of(q) for q in loops])
                    compare(c, what, [np.asarray(a) for a in got], want, t if eps_of(t) >= e else [q for q in loops if eps_of(q) == e][0], pert(e))
            n += 1
    return c["f"] if n else ""


# ---------------------------------------------------------------- which loop runs
def below(p, q):
    return all(np.can_cast(np.dtype(a), np.dtype(b)) for a, b in zip(reg.split(p)[0], reg.split(q)[0]))


def smallest(n, dts):
    """the loops that take operands of these types and are not wider than another one that does (loops for objects aside)"""
    if any(d.kind == "O" for d in dts):
        return []
    ls = {q for q in [*table.T.get(n, []), *reg.LOOPS[n]] if "O" not in q and all(np.can_cast(d, np.dtype(ch)) for d, ch in zip(dts, reg.split(q)[0]))}
    return sorted(q for q in ls if not any(below(p, q) and not below(q, p) for p in ls))


def tcase(s):
    n = s.pick(NAMES)
    ch = "?bBhHiIlLqQefdgFDG"
    if s.chance(1, 3):
        ti = list(reg.split(s.pick(table.T.get(n) or reg.LOOPS[n]))[0])
        if s.chance(1, 2):
            ti[s.below(len(ti))] = s.pick(ch)
    else:
        a = [s.pick(ch) for _ in range(2)]
        ti = [s.pick(a) for _ in range(reg.FUNCS[n].nin)]
    return {"f": n, "t": "".join(ti)}


def tbody(c):
    """the dtypes a call would have, as NumPy resolves them with the loops that are registered"""
    f = reg.FUNCS[c["f"]]
    if "O" in c["t"]:
        return ""
    dts = [np.dtype(ch) for ch in c["t"]]
    want = smallest(c["f"], dts)
    if not want:
        return ""
    try:
        r = f.resolve_dtypes(tuple(dts) + (None,) * f.nout)
    except TypeError as e:
        raise Violation(f"{c['f']} does not take operands of the types {c['t']!r}, but the loop {want[0]} holds them: {e}")
    for q in want:
        if all(a == np.dtype(b) for a, b in zip(r, q.replace("->", ""))):
            return c["f"]
    raise Violation(f"{c['f']} of operands of the types {c['t']!r} runs the loop {''.join(d.char for d in r[:f.nin])}->{''.join(d.char for d in r[f.nin:])}; "
                    f"the smallest loops that hold them are {want}")


def ecases():
    return [{"f": n, "t": reg.split(q)[0]} for n in sorted(table.T) if n in reg.FUNCS for q in table.T[n]]


# ---------------------------------------------------------------- precision of the longdouble loops
# Along a line of inputs a smooth function is a cubic up to h**4, so that its fourth differences show the rounding errors alone.
WIDE = [n for n in NAMES if not n.startswith("tri_area") and any(ch in "gG" for ch in reg.split(widest(n, n in ONLYC))[1])]


def line(c, base, d, h):
    """outputs at 5 points of a line, or None"""
    r = []
    for k in (-2, -1, 0, 1, 2):
        xs = []
        for i, (x, e) in enumerate(zip(base, d)):
            if x.dtype.char in "gG":
                x = x + x * (np.longdouble(k * h) * e)
                if (c["f"], i) in reg.SORT:
                    x = np.sort(x, axis=-1)
            xs.append(x)
        try:
            r.append([wide(np.asarray(v)) for v in run(c, xs, c["t"])])
        except Exception:
            return None
    return r


def d4(v):
    return abs(v[0] - 4 * v[1] + 6 * v[2] - 4 * v[3] + v[4])


def sbody(c):
    base = cast(c, reg.split(c["t"])[0])
    if base is None:
        return ""
    base = [x * np.longdouble("1.2345678901234567890123") if x.dtype.char in "gG" and (c["f"], i) not in reg.SPECIAL else x for i, x in enumerate(base)]
    rng = np.random.default_rng(c["r"])
    lines, cond = [], None
    for q in range(5):
        d = [rng.integers(-64, 65, size=x.shape) / np.longdouble(64) for x in base]
        v = line(c, base, d, 2.0 ** -18)
        if v is None:
            return ""
        w = line(c, base, d, 2.0 ** -30)
        if w is None:
            return ""
        lines.append((d, v, w))
    n = 0
    slack = 2.0 ** -63 * 256 * max([float(abs(x).max()) for x in base if x.size], default=0.0) ** DEGREE[c["f"]] if c["f"] in DEGREE else 0.0
    with np.errstate(all="ignore"):
        for k, ch in enumerate(reg.split(c["t"])[1]):
            if ch not in "gG":
                continue
            cond = 0
            smooth = True
            for d, v, w in lines:
                v = [p[k] for p in v]
                cond = np.maximum(cond, abs(v[2]) + abs(v[4] - v[0]) * 2.0 ** 16)
            for d, v, w in lines:
                v = [p[k] for p in v]
                smooth = smooth & (d4(v) <= 2.0 ** -43 * cond)
            tol = 2.0 ** -63 * 256 * cond + slack + TINY["g"]
            for d, v, w in lines:
                w = [p[k] for p in w]
                bad = smooth & np.isfinite(cond) & (d4(w) > tol)
                if bad.any():
                    i = tuple(int(e) for e in np.argwhere(bad)[0])
                    raise Violation(f"{c['f']}[{c['t']}]({', '.join(reg.pl(x) for x in base)}): output {k} at {i} is {w[2][i]!r}; along a line of inputs with relative steps of 2**-30 "
                                    f"the fourth difference is {float(d4(w)[i]):.3g}, so that the value is not accurate to longdouble precision "
                                    f"(expected < {float(np.broadcast_to(tol, w[2].shape)[i]):.3g})")
            n += int((smooth & np.isfinite(cond)).sum())
    return c["f"] if n else ""


def facets(tier):
    st2 = [src((lambda n: lambda s: case(s, n))(n), 400) for n in WIDE]
    st = [src((lambda n: lambda s: case(s, n))(n), 400) for n in NAMES]
    return [Facet("longdouble", st2, sbody, 40 * len(WIDE), 2000 * len(WIDE), rule="some output is smooth along the line; labelled by function"),
            Facet("supported types", ecases(), tbody, 0, 0, rule="a loop of the table; labelled by function", enum=True),
            Facet("resolution", [src(tcase, 30)], tbody, 4000, 60000, rule="some loop not for objects holds the types; labelled by function"),
            Facet("loops", st, body, 100 * len(NAMES), 4000 * len(NAMES), rule="at least two loops were compared; labelled by function")]
