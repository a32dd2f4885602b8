"""Floating-point error state: calls that are well defined signal nothing."""
import numpy as np
from core import Facet, Violation
import reg
from gen import src

BUDGET = (200, 700)
TECHNIQUE = "invariant over generated calls: with invalid and divide set to 'raise' in numpy.errstate, a call of finite operands whose results are finite succeeds and gives the same result"
NOTE = ("Every function and loop (no object loops); operands as in P06, and scaled by powers of two up to the ends of the exponent range; overflow and underflow of intermediate results are allowed. "
        "There, calls with nan or infinite operands or results are not judged; but the 32 element-by-element functions signal nothing at all for any operands.")
NAMES = [n for n in reg.NAMES if any("O" not in t for t in reg.LOOPS[n])]
RANGE = {"e": 10, "f": 110, "d": 900, "g": 9000, "F": 110, "D": 900, "G": 9000}


def mkcase(s, n):
    for _ in range(8):
        c = reg.gen_case(s, [n], dmax=7)
        if "O" not in c["t"]:
            break
    c["sc"] = [0 if s.chance(2, 3) else s.near0(8) for _ in c["ops"]]
    return c


def body(c):
    if "O" in c["t"]:
        return ""
    xs = reg.build(c)
    with np.errstate(all="ignore"):
        for i, k in enumerate(c["sc"]):
            if xs[i].dtype.char in RANGE and (c["f"], i) not in reg.SPECIAL:
                xs[i] = (xs[i] * np.exp2(np.array(k * RANGE[xs[i].dtype.char] // 8, dtype=np.longdouble))).astype(xs[i].dtype)
    if not all(np.isfinite(x).all() for x in xs):
        return ""
    try:
        base = reg.run(c, xs)
    except Exception:
        return ""
    if not all(np.isfinite(np.asarray(r)).all() for r in base):
        return ""
    kw = {"out": tuple(reg.mkout(c))} if reg.needs_out(c["f"]) else {}
    f = reg.FUNCS[c["f"]]
    try:
        with np.errstate(invalid="raise", divide="raise", over="ignore", under="ignore"):
            got = f(*xs, **kw)
    except FloatingPointError as e:
        raise Violation(f"{reg.describe(c, xs)} signals '{e}', though its result {reg.pl(np.asarray(base[0]))} is finite")
    got = [got] if f.nout == 1 else list(got)
    sc = reg.scale_of(xs)
    for a, b, t in zip(got, base, reg.split(c["t"])[1]):
        if not reg.agree(reg.arr_of(a, t), reg.arr_of(b, t), sc):
            raise Violation(f"{reg.describe(c, xs)} is {reg.pl(np.asarray(a))} with errors raised, and {reg.pl(np.asarray(b))} with errors ignored")
    return c["f"] if any(x.size for x in xs) else ""


# The element-by-element functions clear the error flags: they signal nothing, whatever the operands.
SILENT = """abs_squared deadzone erfcx expint1 exponential_ramp hyperbolic_ramp hypot3 inv_yeo_johnson invsmoothstep3 linearstep log_logistic
logexpint1 logistic logistic_deriv nan_to_num next_greater next_less normal.cdf normal.logcdf normal.logsf normal.sf pow1pm1
semivar.exponential semivar.linear semivar.parabolic semivar.spherical smoothstep3 smoothstep5 step swish trapezoid_pulse yeo_johnson""".split()
SIMPLE = [0.0, -0.0, 1.0, -1.0, 2.0, -2.0, float("nan"), float("inf"), -float("inf"), 3.0, 0.5, -0.5, 1e-30, -1e30, 1e4, -1e4]


def silcase(s):
    n = s.pick(SILENT)
    t = s.pick(reg.LOOPS[n])
    k = s.pick([1, 1, 2, 5, 17])

    def el(ch):
        if ch in "FDG":
            e = "f" if ch == "F" else "d"
            return [el(e), el(e)]
        return s.pick(SIMPLE) if s.chance(2, 3) else s.flt(ch, nan=True, inf=True)
    return {"f": n, "t": t, "n": k, "ops": [[el(ch) for _ in range(k)] for ch in t.split("->")[0]]}


def silbody(c):
    with np.errstate(all="ignore"):
        xs = [reg.mk(v, ch, (c["n"],)) for v, ch in zip(c["ops"], c["t"])]
        want = reg.FUNCS[c["f"]](*xs)
    try:
        with np.errstate(all="raise"):
            got = reg.FUNCS[c["f"]](*xs)
    except FloatingPointError as e:
        raise Violation(f"{c['f']}({', '.join(reg.pl(x) for x in xs)})[{c['t']}] signals '{e}': the function leaves no error flag set for any operands")
    if not reg.same(got, want):
        raise Violation(f"{c['f']}({', '.join(reg.pl(x) for x in xs)})[{c['t']}] is {reg.pl(got)} with errors raised, and {reg.pl(want)} with errors ignored")
    return c["f"] if not np.isfinite(np.asarray(want)).all() or any(not np.isfinite(x).all() for x in xs) else ""


def facets(tier):
    st = [src((lambda n: lambda s: mkcase(s, n))(n), 700) for n in NAMES]
    return [Facet("calls", st, body, 150 * len(NAMES), 8000 * len(NAMES), rule="operands and results are finite and not empty; labelled by function"),
            Facet("silent", src(silcase, 700), silbody, 6000, 300000, rule="an operand or result that is nan or infinite; labelled by function")]
