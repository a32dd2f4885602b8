"""Structured generators.

Hypothesis draws one block of bytes per case; `Src` decodes it into a plain,
JSON-able case.  (One draw instead of a hundred makes generation ten times
faster; Hypothesis still shrinks, towards zero bytes, and every decoder below
maps zero to the simplest choice.)
"""
import math
import struct
import numpy as np
from hypothesis import strategies as st
from arr import MODES, NLAY, INTS

NAN, INF = float("nan"), float("inf")
FLTS, INTEGERS = [], []         # the fuzzing dictionary of the check that runs (see lits.py); set by the worker


def dictionary(prop):
    import lits
    a, b = lits.literals(prop)
    FLTS[:], INTEGERS[:] = a, b


def beside(s, c):
    """c, or a neighbour of c at any relative distance, of either sign"""
    k = s.byte()
    if k & 3 and k & 32:
        d = math.ldexp(1 + s.bits(2) / 65536.0, -s.rng(2, 54)) * (abs(c) or 1.0) if k % 4 > 1 else math.ldexp(abs(c) or 1.0, -52 if k & 4 else -23)
        c = c + d if k & 8 else c - d
    return -c if k & 16 and k & 64 else c


class Src:
    def __init__(self, b):
        self.b = b
        self.i = 0

    def byte(self):
        i = self.i
        if i >= len(self.b):
            return 0
        self.i = i + 1
        return self.b[i]

    def bits(self, nbytes):
        i = self.i
        self.i = i + nbytes
        return int.from_bytes(self.b[i:i + nbytes], "big")

    def below(self, n):
        if n <= 1:
            return 0
        if n <= 16:
            return self.byte() % n
        return self.bits((n.bit_length() + 15) // 8) % n

    def rng(self, lo, hi):
        """lo..hi inclusive; zero bytes give lo."""
        return lo + self.below(hi - lo + 1)

    def near0(self, k):
        """-k..k; zero bytes give 0."""
        v = self.below(2 * k + 1)
        return v // 2 + 1 if v % 2 else -(v // 2)

    def pick(self, seq):
        return seq[self.below(len(seq))]

    def chance(self, num, den):
        """True with probability num/den (False on zero bytes)."""
        return self.below(den) >= den - num

    def many(self, n, f):
        return [f() for _ in range(n)]

    def bools(self, n):
        return [bool(self.byte() & 1) for _ in range(n)]

    def style(self):
        m = self.byte()
        return {"mode": MODES[m % len(MODES)],
                "lay": [self.byte() % NLAY for _ in range(6)],
                "bc": [False] * 6, "ol": self.byte() % 15}

    # ------------------------------------------------------------ numbers
    def small(self, dt):
        if dt in INTS + "qQ":
            v = self.below(9)
            if np.dtype(dt).kind == "u":
                return v
            return v // 2 + 1 if v % 2 else -(v // 2)
        if dt == "?":
            return self.byte() & 1
        return float(self.near0(4))

    def integer(self, dt):
        ii = np.iinfo(dt)
        k = self.byte() % 8
        if k == 2 and INTEGERS:
            v = self.pick(INTEGERS) + self.near0(1)
            v = -v if self.byte() & 1 else v
            return v if ii.min <= v <= ii.max else self.small(dt)
        if k < 3:
            return self.small(dt)
        if k == 3:
            return int(self.pick([0, int(ii.max), int(ii.min), int(ii.max) - 1, int(ii.min) + 1, 1,
                                  max(int(ii.min), -1), int(ii.max) // 2 + 1]))
        v = self.bits(np.dtype(dt).itemsize)
        if k == 4:
            v >>= 4
        if k == 7:      # few bits set or clear: powers of two and their neighbours
            b = 8 * np.dtype(dt).itemsize
            v = (1 << v % b) * (v // 64 % 4 + 1) + (v // 256 % 3 - 1)
            v = min(max(-v if ii.min < 0 and self.byte() % 2 else v, int(ii.min)), int(ii.max))
            return v
        return (v + int(ii.min)) if ii.min < 0 and k != 4 else min(v, int(ii.max))

    def flt(self, dt, nan=False, inf=False, mag=None, lo=None):
        """A float that dt represents exactly (for g: a float64 value or a pair hi, lo)."""
        k = self.byte() % 16
        if k < 4:
            v = self.near0(20) / 4
        elif k == 5 and FLTS:
            v = beside(self, self.pick(FLTS))
        elif k < 6:
            v = float(self.near0(5))
        elif k < 11:
            m = self.bits(4) / 2.0 ** 32 + 0.5
            v = math.ldexp(m, self.near0(12 if k < 10 else 40))
            if self.byte() & 1:
                v = -v
        elif k < 13:
            if dt == "f":
                v = struct.unpack(">f", self.bits(4).to_bytes(4, "big"))[0]
            elif dt == "e":
                v = struct.unpack(">e", self.bits(2).to_bytes(2, "big"))[0]
            else:
                v = struct.unpack(">d", self.bits(8).to_bytes(8, "big"))[0]
        elif k == 13:
            t = {"f": np.finfo("f"), "e": np.finfo("e")}.get(dt, np.finfo("d"))
            v = self.pick([0.0, -0.0, float(t.tiny), float(t.smallest_subnormal), float(t.eps), 1.0,
                           float(t.max), -float(t.max), -float(t.tiny), 1 + float(t.eps)])
        else:
            v = self.pick(([NAN] if nan else []) + ([INF, -INF] if inf else []) + [0.0, -0.0, 1.0])
        if dt == "f":
            if abs(v) > 3.4e38 and v in (v,) and not math.isinf(v):
                v = math.copysign(float(np.finfo("f").max), v)
            v = float(np.float32(v))
        elif dt == "e":
            with np.errstate(all="ignore"):
                v = float(np.float16(v))
        if v != v and not nan or math.isinf(v) and not inf:
            v = float(self.near0(9))
        if mag is not None and abs(v) > mag:
            v = math.copysign(math.ldexp(math.frexp(v)[0], int(math.log2(mag))), v) \
                if not math.isinf(v) else v
        if dt == "g" and v == v and not math.isinf(v) and 1e-200 < abs(v) < 1e200 and k in (6, 7):
            lo_ = math.ldexp(float(self.near0(1000)), math.frexp(v)[1] - 64)
            return [v, lo_]
        return v

    def value(self, dt, nan=False, inf=False):
        if dt in INTS + "qQ":
            return self.integer(dt)
        if dt == "?":
            return self.byte() & 1
        return self.flt(dt, nan=nan, inf=inf)

    def elem(self, dt, nan=False, inf=False):
        """-> a generator of elements: all from a tiny set (ties), or general values."""
        if self.byte() % 5 < 2:
            if (nan or inf) and dt in "efdg" and self.byte() % 3 == 1:
                pool = [0.0, 1.0, -1.0, 2.0] + ([NAN] if nan else []) + ([INF, -INF] if inf else [])
                return lambda: self.pick(pool)
            return lambda: self.small(dt)
        return lambda: self.value(dt, nan=nan, inf=inf)

    def obj(self, kind=None):
        """A plain value standing for a Python object: int, big int, Fraction pair, float."""
        k = self.byte() % 8 if kind is None else kind
        if k < 3:
            return self.near0(4)
        if k == 3:
            return self.near0(1 << 100)
        if k < 6:
            return [self.near0(9), self.rng(1, 7)]
        if k == 6:
            return self.near0(200) / 16
        return self.near0(60000)


def src(f, size=256):
    """Strategy: f(Src) -> case."""
    return st.binary(min_size=size, max_size=size).map(lambda b: f(Src(b)))


def row(s, el, n):
    """n elements; sometimes one value, with few exceptions, or runs of equal values"""
    k = s.byte() % 16
    if n > 40 and k < 12:
        pool, r = [el() for _ in range(12)], []
        while len(r) < n:
            b = s.byte() or len(r) + 1
            r += [pool[b % 12]] * (1 + b // 12 if k < 4 else 1)
        return r[:n]
    if k < 12 or n < 2:
        return [el() for _ in range(n)]
    v = el()
    r = [v] * n
    for _ in range(s.rng(0, 2)):
        i = s.below(n)
        r[i] = el()
        if k == 15:
            r[i:] = [r[i]] * (n - i)
    return r


def vec(dts, nmin=0, nmax=12, bmax=3, nan=False, inf=False, extra=None, elem=None, size=384):
    """{dt, n, x: B lists of n values, sty, ...extra(s, dt, n, B)}"""
    def f(s):
        dt = dts[0] if len(dts) == 1 else s.pick(dts)
        n = s.rng(nmin, nmax)
        if s.chance(1, 16):
            n = s.rng(nmin, 3 * nmax + 4)
            if s.chance(1, 4):
                n = s.rng(50, 400)
        B = s.rng(1, bmax)
        sty = s.style()
        c = {"dt": dt, "n": n, "sty": sty}
        if extra:
            c.update(extra(s, dt, n, B))
            if n > 49 and "pick" in c:
                c["pick"] = [k if k < 0 else k * 7 % n for k in c["pick"]]
        el = elem(s, dt) if elem else s.elem(dt, nan=nan, inf=inf)
        c["x"] = [row(s, el, n) for _ in range(B)]
        return c
    if isinstance(dts, str):
        dts = list(dts)
    return src(f, size)
