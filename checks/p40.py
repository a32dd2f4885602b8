"""Lengths and strides beyond 32 bits."""
import faulthandler
import itertools
import numpy as np
import ufunclab as u
from core import Facet, Violation, call
import reg
import big
from arr import same, poison
from gen import src

BUDGET = (200, 800)
TECHNIQUE = "metamorphic: arrays in virtual memory with strides beyond 2**31 bytes against compact copies, and arrays with more than 2**31 elements against one period of their content, or against a count"
NOTE = ("Strides: every function and loop (no object loops), each axis of each operand and of out with a stride of up to 2**33 bytes in either direction. "
        "Lengths: 2**31 to 2**31 + 2**21 core problems for functions whose operands take few bytes (quick) or all functions with float32 or smaller operands (thorough); "
        "core dimensions of that length for every reduction. sosfilter_ic_contig is left out, as are outputs of more than 2**31 elements in a core dimension except the filters listed.")
GIB = 1 << 30
NAMES = [n for n in reg.NAMES if n not in reg.CONTIG and any("O" not in t for t in reg.LOOPS[n])]
ARENA = 1 << 38
_arenas = []


# ------------------------------------------------------------------ strides
def scase(s, n):
    for _ in range(6):
        c = reg.gen_case(s, [n], dmax=5, batches=[[], [2], [3], [2, 2], [3, 1]])
        if "O" not in c["t"]:
            break
    k = len(c["ops"]) + len(reg.out_shapes(c))
    c["st"] = [[s.pick([0, 1, -1, 2, -2]) for _ in range(4)] for _ in range(k)]
    c["add"] = s.rng(0, 3)
    return c


def spread(shape, dt, st, add, slot):
    """an array with huge strides, or None if it does not fit"""
    dt = np.dtype(dt)
    while len(_arenas) <= slot:
        _arenas.append(big.Arena(ARENA))
    compact, e = [0] * len(shape), dt.itemsize
    for a in reversed(range(len(shape))):
        compact[a] = e
        e *= max(shape[a], 1) + 1
    strides, off, ext = [], 0, 0
    one = (1 << 31) + add * 64
    for a, n in enumerate(shape):
        q = st[a % 4]
        q = q // abs(q) * (one * abs(q) * (1 << a % 3) + compact[a]) if q and n > 1 else compact[a]
        strides.append(q)
        if q < 0:
            off += -q * (n - 1)
        ext += abs(q) * max(n - 1, 0)
    if ext + e + dt.itemsize > ARENA:
        return None
    return _arenas[slot].view(shape, dt, strides, off)


def clear():
    for a in _arenas:
        big.libc.madvise(big.ctypes.c_void_p(a.base), big.ctypes.c_size_t(a.size), 4)     # MADV_DONTNEED


def sbody(c):
    if "O" in c["t"]:
        return ""
    xs = reg.build(c)
    try:
        base = reg.run(c, xs)
    except Exception:
        return ""
    to = reg.split(c["t"])[1]
    try:
        vs = []
        for i, x in enumerate(xs):
            v = spread(x.shape, x.dtype, c["st"][i], c["add"], i)
            if v is None:
                v = x
            else:
                v[...] = x
            vs.append(v)
        outs = None
        shs = reg.out_shapes(c)
        if c["add"] % 2 or reg.needs_out(c["f"]):
            outs = []
            for k, (sh, t) in enumerate(zip(shs, to)):
                o = spread(sh, t, c["st"][len(xs) + k], c["add"], len(xs) + k)
                if o is None:
                    o = np.empty(sh, dtype=t)
                o[...] = 0 if c["f"] in reg.ACC else poison(sh, t)
                outs.append(o)
        try:
            got = reg.run(c, vs, outs)
        except Exception as e:
            raise Violation(f"{reg.describe(c, xs)} with strides {[v.strides for v in vs]} raised {type(e).__name__}: {e}")
        sc = reg.scale_of(xs)
        for k, (a, b, t) in enumerate(zip(got, base, to)):
            a, b = np.array(reg.arr_of(a, t)), reg.arr_of(b, t)
            if not reg.agree(a, b, sc):
                raise Violation(f"{reg.describe(c, xs)} with strides {[v.strides for v in vs]}{', out strides ' + str(outs[k].strides) if outs else ''}: "
                                f"output {k} is {reg.pl(a)}, with contiguous arrays {reg.pl(b)}")
        huge = any(abs(q) >= 1 << 31 for v in vs + (outs or []) for q in v.strides)
        return c["f"] if huge else ""
    finally:
        clear()


# ------------------------------------------------------------------ lengths: many core problems
ROWS = 1 << 20


def chunk_of(rng, n, i, t, core):
    sh = (ROWS,) + core
    sp = reg.SPECIAL.get((n, i))
    if sp is not None:
        s = Bits(rng)
        v = np.array([sp(s, t) for _ in range(64)]).astype(t)
        return v[rng.integers(0, 64, size=sh)]
    if t in "bBhHiIlLqQ?":
        return rng.integers(0, 2 if t == "?" else 5, size=sh).astype(t)
    if t in "FDG":
        return (rng.integers(-40, 40, size=sh) / 8 + 1j * rng.integers(-40, 40, size=sh) / 8).astype(t)
    x = (rng.integers(-40, 40, size=sh) / 8).astype(t)
    return np.sort(x, axis=-1) if (n, i) in reg.SORT else x


class Bits:
    """the part of gen.Src that reg's generators of special operands use"""

    def __init__(self, rng):
        self.r = rng

    def byte(self):
        return int(self.r.integers(0, 256))

    def bits(self, n):
        return int.from_bytes(self.r.bytes(n), "big")

    def rng(self, lo, hi):
        return int(self.r.integers(lo, hi + 1))

    def near0(self, k):
        return int(self.r.integers(-k, k + 1))

    def pick(self, q):
        return q[int(self.r.integers(0, len(q)))]

    def chance(self, a, b):
        return self.r.integers(0, b) < a


def loops_of(n):
    """[(type string, bytes per core problem)] of the cheap loops"""
    r = []
    for t in reg.LOOPS[n]:
        if "O" in t:
            continue
        ins, outs = reg.SIG[n]
        b = 0
        for p, ch in zip(ins + outs, "".join(reg.split(t))):
            b += np.dtype(ch).itemsize * int(np.prod([int(d) if d.isdigit() else 2 for d in p]))
        r.append((t, b))
    return sorted(r, key=lambda e: e[1])


# seconds per 2**31 core problems: those are for the thorough tier
SLOW_ROWS = set("""logfactorial one_hot.gufunc hyperbolic_ramp argminmax pearson_corr ordered wjaccard hypot3 backlash nextn_less.gufunc
nextn_greater.gufunc gendot(minimum,maximum) gendot(multiply,add) linear_interp1d gendot(subtract,argmax) argfirst gendot(less,logical_or)
gmean softmax log_logistic invsmoothstep3 percentileofscore hysteresis_relay gmeanw loggamma1p debye1 erfcx pmean normal.cdf normal.sf
vnorm pmeanw tri_area pow1pm1 normal.logsf normal.logcdf inv_yeo_johnson yeo_johnson mad gini rmad log1p_doubledouble multivariate_logbeta
log1p_theorem4""".split())
TOO_SLOW = {"expint1", "logexpint1", "exponential_ramp"}


def lcases(tier):
    r = []
    for n in NAMES:
        if n in reg.ACC or n in TOO_SLOW or tier == "quick" and n in SLOW_ROWS:
            continue
        t, b = loops_of(n)[0]
        lim = 9 if tier == "quick" else 41
        if b <= lim:
            for k in range(1 if tier == "quick" or n in SLOW_ROWS else 2):
                r.append({"f": n, "t": t, "n": (1 << 31) + [5, ROWS * 17 + 3][k], "seed": k})
    return r


def lbody(c):
    n, t, N = c["f"], c["t"], c["n"]
    f = reg.FUNCS[n]
    ti, to = reg.split(t)
    ins, outs = reg.SIG[n]
    rng = np.random.default_rng(c["seed"] + len(n))
    dims = {d: (int(d) if d.isdigit() else 2) for p in ins + outs for d in p}
    at = [min((1 << 31) - 1, N - 3), min(1 << 31, N - 2), N - 1]
    longs, args, small, spikes = [], [], [], []
    only = c["seed"] % len(ins) if len(ins) > 3 or c["seed"] else None        # one long operand, or all of them
    try:
        for i, (p, ch) in enumerate(zip(ins, ti)):
            core = tuple(dims[d] for d in p)
            ck = chunk_of(rng, n, i, ch, core)
            if only is not None and i != only:
                args.append(ck[0])
                small.append(ck[0])
                continue
            L = big.Long(N, core, ch, ck, at)
            longs.append(L)
            for k, j in enumerate(at):
                L.x[j] = ck[k + 7]
            args.append(L.x)
            last = np.concatenate([ck[(N - 64 + np.arange(64)) % ROWS], ck[7:10]])
            small.append(last)
        os_ = []
        for p, ch in zip(outs, to):
            core = tuple(dims[d] for d in p)
            L = big.Long(N, core, ch, np.broadcast_to(poison((ROWS // 16,) + core, ch), (16, ROWS // 16) + core).reshape((ROWS,) + core), at)
            longs.append(L)
            os_.append(L.x)
        try:
            with np.errstate(all="ignore"):
                f(*args, out=tuple(os_))
        except Exception as e:
            raise Violation(f"{n}[{t}] of {N} core problems raised {type(e).__name__}: {e}")
        with np.errstate(all="ignore"):
            w = f(*small) if not reg.needs_out(n) else f(*small, out=tuple(np.zeros((67,) + o.shape[1:], o.dtype) for o in os_))
        w = [w] if f.nout == 1 else list(w)
        for k, (o, e) in enumerate(zip(os_, w)):
            tail = np.array(o[N - 64:])
            exp = e[:64].copy()
            for q, j in enumerate(at):
                if j >= N - 64:
                    exp[j - (N - 64)] = e[64 + q]
            if not reg.agree(tail, exp, 5.0):
                raise Violation(f"{n}[{t}] of {N} core problems: the last 64 of output {k} are {reg.pl(tail)}, expected {reg.pl(exp)}")
            g = np.array(o[at])
            if not reg.agree(g, e[64:], 5.0):
                raise Violation(f"{n}[{t}] of {N} core problems: output {k} at {at} is {reg.pl(g)}, expected {reg.pl(e[64:])}")
        return n
    finally:
        args = os_ = None
        for L in longs:
            L.x = None
            L.close()


# ------------------------------------------------------------------ lengths: one long core dimension
class X:
    """A long 1-d array: `lo` everywhere, other values at some positions"""

    def __init__(self, c, t, base=None):
        n = c["n"]
        base = c["base"] if base is None else base
        self.n, self.base = n, base
        self.spk = {int(i): v for i, v in c["spk"] if 0 <= i < n}
        ck = np.full(max(4096, 1 << 20) // np.dtype(t).itemsize, base, dtype=t)
        self.L = big.Long(n, (), t, ck, list(self.spk))
        for i, v in self.spk.items():
            self.L.x[i] = v
        self.x = self.L.x

    def hist(self):
        h = {}
        for v in self.spk.values():
            h[v] = h.get(v, 0) + 1
        h[self.base] = h.get(self.base, 0) + self.n - len(self.spk)
        return h

    def first(self, pred):
        i = 0
        for p in sorted(self.spk):
            if p > i and pred(self.base):
                return i
            if pred(self.spk[p]):
                return p
            i = p + 1 if p == i else i
            if p >= i:
                i = p + 1
        return i if i < self.n and pred(self.base) else -1

    def close(self):
        self.x = self.L.x = None
        self.L.close()


def near(got, want, tol):
    return abs(float(got) - float(want)) <= tol * abs(float(want)) or got == want


OPS = {"LT": lambda a, b: a < b, "LE": lambda a, b: a <= b, "EQ": lambda a, b: a == b, "NE": lambda a, b: a != b, "GT": lambda a, b: a > b, "GE": lambda a, b: a >= b}
INTF = ["argmax", "argmin", "argminmax", "minmax", "min_argmin", "max_argmax", "peaktopeak", "all_same", "first", "argfirst", "searchsortedl", "searchsortedr",
        "percentileofscore", "bincount", "bincountw", "meanvar", "wjaccard", "ordered", "gendot", "gendot2", "gendot3"]
SLOW = {"gmean", "gmeanw", "hmean", "pearson_corr", "vnorm2", "multivariate_logbeta", "gendot2", "tri_area", "pmean", "pmeanw", "meanvar"}
FLTF = ["kbnsum", "vdot", "vnorm1", "vnorm2", "vnorminf", "rms", "gmean", "hmean", "pmean", "pearson_corr", "crms", "gmeanw", "hmeanw", "pmeanw", "linear_interp1d", "tri_area", "tri_area_indexed", "multivariate_logbeta"]


EXTREMA = {"argmax", "argmin", "argminmax", "minmax", "min_argmin", "max_argmax", "peaktopeak", "gendot3", "gendot2"}


def ccases(tier):
    r = []
    rng = np.random.default_rng(5)
    for k in range(1 if tier == "quick" else 6):
        for f in INTF + FLTF:
            if tier == "quick" and f in SLOW:
                continue
            n = (1 << 31) + int(rng.integers(1, 1 << 20))
            pos = [n - 1, (1 << 31) - 1, 1 << 31, int(rng.integers(1 << 31, n)), int(rng.integers(0, n))]
            spk = [[pos[int(rng.integers(0, 3 if k < 2 else 5))], int(rng.choice([-2, 3, 4]))] for _ in range(1 + k % 3)]
            if f in EXTREMA:
                # both extrema beyond element 2**31
                spk = [[n - 1 - k % 2, 4], [(1 << 31) + k, -2]][::-1 if k % 3 == 1 else 1]
            elif f in ("all_same", "first", "argfirst") or k == 0:
                spk = spk[:1]
            r.append({"f": f, "n": n, "base": 1, "spk": spk, "k": k})
    return r


def madbody(c):
    """mad of n elements, half of them 0 and half 1, in a child that may be short of memory (it takes 8*n bytes)"""
    import os
    import signal
    n = c["n"]
    with open("/proc/meminfo") as g:
        free = [int(l.split()[1]) << 10 for l in g if l.startswith("MemAvailable")][0]
    if free < 8 * n + (5 << 30):
        return ""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(600)
            L = big.Long(n, (), "d", np.tile(np.array([0, 1.0]), 1 << 16))
            os.write(w, repr(float(u.mad(L.x, False))).encode())
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as g:
        t = g.read()
    os.waitpid(pid, 0)
    if t and not abs(float(t) - 0.5) < 1e-3:
        raise Violation(f"mad of {n} elements, half of them 0 and half 1, is {t}")
    return "mad" if t else ""


def cbody(c):
    f, n = c["f"], c["n"]
    if f == "mad":
        return madbody(c)
    free = []

    def X_(t, **kw):
        x = X(c, t, **kw)
        free.append(x)
        return x

    def bad(got, want):
        raise Violation(f"{f} of {n} items {c['base']} with {dict(map(tuple, c['spk']))}: {got}, expected {want}")

    def eq(got, want):
        if not np.array_equal(np.asarray(got), np.asarray(want)):
            bad(got, want)
    try:
        if f in INTF:
            x = X_("b")
            h = x.hist()
            lo, hi = min(h), max(h)
            il, ih = x.first(lambda v: v == lo), x.first(lambda v: v == hi)
            if f == "argmax":
                eq(call(u.argmax, x.x), ih)
            elif f == "argmin":
                eq(call(u.argmin, x.x), il)
            elif f == "argminmax":
                eq(call(u.argminmax, x.x), [il, ih])
            elif f == "minmax":
                eq(call(u.minmax, x.x), [lo, hi])
            elif f == "min_argmin":
                eq([int(v) for v in call(u.min_argmin, x.x)], [lo, il])
            elif f == "max_argmax":
                eq([int(v) for v in call(u.max_argmax, x.x)], [hi, ih])
            elif f == "peaktopeak":
                eq(call(u.peaktopeak, x.x), hi - lo)
            elif f == "all_same":
                eq(call(u.all_same, x.x), len(h) == 1)
            elif f in ("first", "argfirst"):
                v0 = c["spk"][0][1]
                op = {-2: "LT", 3: "GT", 4: "NE"}[v0]
                i = x.first(lambda v: OPS[op](v, 1))
                if f == "argfirst":
                    eq(call(u.argfirst, x.x, getattr(u.op, op), np.int8(1)), i)
                else:
                    eq(call(u.first, x.x, getattr(u.op, op), np.int8(1), np.int8(99)), 99 if i < 0 else v0)
            elif f.startswith("searchsorted"):
                # the items are 1; only those from the last spike on are 5
                y = X({"n": n, "spk": [[i, 5] for i in range(max(i for i in x.spk), min(n, max(i for i in x.spk) + 1))]}, "b", base=1)
                free.append(y)
                p = max(x.spk)
                if p < n - 1:
                    eq(call(getattr(u, f), y.x[:p + 1], np.array([5, 1, 0, 9], "b")), [p, 0, 0, p + 1] if f[-1] == "l" else [p + 1, p, 0, p + 1])
                else:
                    eq(call(getattr(u, f), y.x, np.array([5, 1, 0, 9], "b")), [p, 0, 0, n] if f[-1] == "l" else [n, p, 0, n])
            elif f == "percentileofscore":
                for v in (1,):
                    a, b = sum(m for k, m in h.items() if k < v), sum(m for k, m in h.items() if k <= v)
                    got = call(u.percentileofscore, x.x, np.int8(v), u.op.KIND_WEAK if c["k"] % 2 else u.op.KIND_STRICT)
                    want = 100 * ((b if c["k"] % 2 else a) / n)
                    if not near(got, want, 1e-12):
                        bad(got, want)
            elif f == "bincount":
                eq(call(u.bincount, x.x, 6), [h.get(k, 0) for k in range(6)])
            elif f == "bincountw":
                w = np.broadcast_to(np.int32(1), (n,))
                got = call(u.bincount, x.x, 6, weights=w)
                want = [((h.get(k, 0) + 2 ** 31) % 2 ** 32 - 2 ** 31) if got.dtype == np.int32 else h.get(k, 0) for k in range(6)]
                eq(got, want)
            elif f == "meanvar":
                s = sum(k * m for k, m in h.items())
                s2 = sum(k * k * m for k, m in h.items())
                got = call(u.meanvar, x.x, 0)
                want = [s / n, (s2 * n - s * s) / n / n]
                if not near(got[0], want[0], 1e-9) or not near(got[1], want[1], 1e-4):
                    bad(got, want)
            elif f == "wjaccard":
                x = X({"n": n, "spk": [[i, abs(v)] for i, v in x.spk.items()]}, "b", base=1)
                free.append(x)
                y = np.broadcast_to(np.int8(2), (n,))
                num, den = sum(min(k, 2) * m for k, m in x.hist().items()), sum(max(k, 2) * m for k, m in x.hist().items())
                got = call(u.wjaccard, x.x, y)
                if not near(got, num / den, 1e-6):
                    bad(got, num / den)
            elif f == "ordered":
                y = X({"n": n, "spk": c["spk"][:1]}, "b", base=1)
                free.append(y)
                i, v = c["spk"][0]
                want = (v > 1 and i == n - 1) or (v < 1 and i == 0)
                eq(call(u.ordered, y.x, u.op.LE), want)
            elif f == "gendot":
                y = X_("?", base=0)
                for i in y.spk:
                    y.x[i] = True
                eq(call(gd(np.logical_and, np.logical_or), y.x, y.x), True)
            elif f == "gendot3":
                eq(call(gd(np.bitwise_or, u.argmax), x.x, np.broadcast_to(np.int8(0), (n,))), ih)
            elif f == "gendot2":
                y = np.broadcast_to(np.int8(0), (n,))
                eq(call(gd(np.bitwise_xor, np.maximum), x.x, y), hi)
            return f
        # floating point
        if f == "kbnsum":
            x = X_("d")
            eq(call(u.kbnsum, x.x), sum(k * m for k, m in x.hist().items()))
        elif f == "vdot":
            x = X_("d")
            h = x.hist()
            eq(call(u.vdot, x.x, x.x), sum(k * k * m for k, m in h.items()))
            eq(call(u.vdot, x.x[::-1], np.broadcast_to(2.0, (n,))), sum(2 * k * m for k, m in h.items()))
        elif f.startswith("vnorm"):
            x = X_("f" if f == "vnorminf" else "d")
            h = x.hist()
            p = {"1": 1.0, "2": 2.0, "f": np.inf}[f[-1]]
            got = call(u.vnorm, x.x, x.x.dtype.type(p))
            want = max(abs(k) for k in h) if p == np.inf else sum(abs(k) ** p * m for k, m in h.items()) ** (1 / p)
            if not near(got, want, 1e-7):
                bad(got, want)
        elif f == "rms":
            x = X_("d")
            got, want = call(u.rms, x.x), (sum(k * k * m for k, m in x.hist().items()) / n) ** 0.5
            if not near(got, want, 1e-7):
                bad(got, want)
        elif f == "crms":
            z = np.broadcast_to(np.complex128(3 + 4j), (n,))
            got = call(u.rms, z)
            if not near(got, 5.0, 1e-7):
                bad(got, 5.0)
        elif f in ("gmean", "hmean", "pmean", "gmeanw", "hmeanw", "pmeanw"):
            x = np.broadcast_to(2.0, (n,))
            a = (x,) + ((np.broadcast_to(1.0, (n,)),) if f[-1] == "w" else ()) + ((np.float64(1),) if f[0] == "p" else ())
            got = call(getattr(u, f), *a)
            if not near(got, 2.0, 1e-6):
                bad(got, 2.0)
        elif f == "pearson_corr":
            x = X_("d")
            got = call(u.pearson_corr, x.x, x.x)
            if not near(got, 1.0, 1e-3):
                bad(got, 1.0)
        elif f == "linear_interp1d":
            x = X({"n": n, "spk": [[n - 2, 2.0], [n - 1, 4.0]]}, "d", base=0.0)
            free.append(x)
            got = call(u.linear_interp1d, 3.0, x.x, x.x)
            if not near(got, 3.0, 1e-12):
                bad(got, 3.0)
        elif f == "tri_area":
            p = np.broadcast_to(np.array([[0.0], [1.0], [3.0]]), (3, n))
            got = call(u.tri_area, p)
            if not float(got) <= 1e4:
                bad(got, 0.0)
        elif f == "tri_area_indexed":
            x = X({"n": 2 * n, "spk": [[2 * n - 1, 4.0], [2 * (n - 3), 2.0]]}, "f", base=0.0)
            free.append(x)
            got = call(u.tri_area_indexed, x.x.reshape(n, 2), np.array([n - 1, n - 3, 0]))
            if not near(got, 4.0, 1e-6):
                bad(got, 4.0)
            eq(call(u.tri_area_indexed, x.x.reshape(n, 2), np.array([-1, -3, 1])), got)
        elif f == "multivariate_logbeta":
            got = call(u.multivariate_logbeta, np.broadcast_to(1.0, (n,)))
            from math import lgamma
            if not near(got, -lgamma(n), 1e-6):
                bad(got, -lgamma(n))
        return f
    finally:
        x = y = None
        for q in free:
            q.close()


# ------------------------------------------------------------------ not enough memory
ALLOC = ["mad", "rmad", "gini", "sosfilter", "gendot(multiply,add)", "gendot(minimum,maximum)", "gendot(subtract,argmax)", "gendot(less,logical_or)"]


def mcase(s):
    n = s.pick(ALLOC)
    t = s.pick([t for t in reg.LOOPS[n] if "O" not in t])
    size = max(np.dtype(ch).itemsize for ch in t if ch not in "->,")
    k = 6 if n == "sosfilter" else 1
    n_max = ((1 << 63) - 1) // (size * k * 4)
    e = s.rng(34, n_max.bit_length() - 1)
    return {"f": n, "t": t, "n": min(n_max, (1 << e) + s.near0(3)), "batch": s.pick([0, 0, 1, 2]), "v": s.rng(1, 4)}


def mbody(c):
    """In a forked child with a limit on its memory: MemoryError, or an answer, or no answer in time, but no crash"""
    import os
    import resource
    import signal
    f, n = reg.FUNCS[c["f"]], c["n"]
    ins, to = reg.split(c["t"])
    dts = list(ins)
    if c["f"] == "sosfilter":
        xs = [np.broadcast_to(np.array([1, 0, 0, 1, 0, 0], dts[0]), (n, 6)), np.ones((2,) * c["batch"] + (4,), dts[1])]
    elif c["f"] in ("mad", "rmad", "gini"):
        xs = [np.broadcast_to(np.array(c["v"], dts[0]), (n,)), np.zeros((2,) * c["batch"], bool)]
    else:
        v = np.full((2,) * c["batch"] + (1,), c["v"], dts[0])
        xs = [np.broadcast_to(np.array(c["v"], dts[0]), (n,)), np.broadcast_to(v, v.shape[:-1] + (n,))]
    pid = os.fork()
    if pid == 0:
        try:
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            with open("/proc/self/statm") as g:
                vm = int(g.read().split()[0]) * 4096
            resource.setrlimit(resource.RLIMIT_AS, (vm + (3 << 30), vm + (3 << 30)))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            faulthandler.disable()
            signal.alarm(20)
            try:
                f(*xs)
            except MemoryError:
                os._exit(1)
            except BaseException:
                os._exit(2)
            os._exit(0)
        finally:
            os._exit(9)
    _, st = os.waitpid(pid, 0)
    what = f"{c['f']}[{c['t']}] of {n} broadcast elements with 3 GiB of memory"
    if os.WIFSIGNALED(st):
        if os.WTERMSIG(st) == signal.SIGALRM:
            return ""
        raise Violation(f"{what} was killed by signal {os.WTERMSIG(st)}")
    if os.WEXITSTATUS(st) == 2:
        raise Violation(f"{what} raised something else than MemoryError")
    return c["f"] if os.WEXITSTATUS(st) == 1 else ""


_gd = {}


def gd(p, s):
    if (p, s) not in _gd:
        _gd[p, s] = call(u.gendot, p, s)
    return _gd[p, s]


def facets(tier):
    st = [src((lambda n: lambda s: scase(s, n))(n), 700) for n in NAMES]
    lc, cc = lcases(tier), ccases(tier)
    if tier != "quick":
        cc = [{"f": "mad", "n": 3037000500, "base": 0, "spk": [], "k": 0}] + cc
    both = list(itertools.chain.from_iterable(itertools.zip_longest(cc, lc)))
    cc, lc = [c for c in both if c in cc], lc
    return [Facet("core", cc, cbody, len(cc), len(cc), enum=True, rule="a core dimension of more than 2**31; labelled by function"),
            Facet("problems", lc, lbody, len(lc), len(lc), enum=True, rule="more than 2**31 core problems; labelled by function"),
            Facet("strides", st, sbody, 25 * len(NAMES), 600 * len(NAMES), rule="some stride is at least 2**31 bytes; labelled by function"),
            Facet("memory", src(mcase, 60), mbody, 400, 8000, rule="MemoryError was raised; labelled by function")]
