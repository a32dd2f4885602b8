"""Arrays from plain data, memory layouts, and call styles."""
import numpy as np
from fractions import Fraction
from core import Violation, call

FLOATS = "fdg"
INTS = "bBhHiIlL"

# ---------------------------------------------------------------- data -> arrays

def scal(v, dt):
    """One plain value -> something np.array(..., dt) takes exactly."""
    if dt == "g":
        if isinstance(v, list):
            return np.longdouble(v[0]) + np.longdouble(v[1])
        if isinstance(v, str):
            return np.longdouble(v)
        return np.longdouble(v)
    if dt == "O":
        if isinstance(v, list):
            return Fraction(v[0], v[1])
        return v
    if dt in "FDG":
        return complex(v[0], v[1]) if isinstance(v, list) else complex(v)
    if isinstance(v, list):
        v = v[0]
    return v


def mk(data, dt, shape=None):
    """Nested lists of plain values -> array.  `shape` is needed for empty/object data."""
    if dt in "gOFDG":
        flat = []

        def walk(d, depth):
            if depth == 0:
                flat.append(scal(d, dt))
            else:
                for e in d:
                    walk(e, depth - 1)
        walk(data, len(shape))
        a = np.empty(len(flat), dtype=dt)
        for i, v in enumerate(flat):
            a[i] = v
        return a.reshape(shape)
    with np.errstate(all="ignore"):
        a = np.array(data, dtype=np.float64 if dt in "ef" else dt)
        if dt in "ef":
            a = a.astype(dt)
    return a if shape is None else a.reshape(shape)


_POISON_F = [float("nan"), -1.7e30, 3.0e7, float("inf"), -5.0e20, 0.0]


def poison(shape, dt):
    dt = np.dtype(dt)
    n = int(np.prod(shape)) if len(shape) else 1
    a = np.empty(n, dtype=dt)
    if dt.kind == "O":
        pool = [Fraction(10 ** 9 + 7, 3), -10 ** 12, Fraction(-1, 7)]
        for i in range(n):
            a[i] = pool[i % len(pool)]
    elif dt.kind == "b":
        a[...] = np.arange(n) % 3 == 0
    elif dt.kind in "iu":
        ii = np.iinfo(dt)
        pool = np.array([ii.max, ii.min, ii.max // 2 + 1, 99], dtype=dt)
        a[...] = pool[np.arange(n) % len(pool)]
    else:
        with np.errstate(all="ignore"):
            pool = np.array(_POISON_F).astype(dt)
        a[...] = pool[np.arange(n) % len(pool)]
    return a.reshape(shape)


NLAY = 9


def lay(a, code):
    """The same values in another memory layout."""
    a = np.asarray(a)
    code = code % NLAY
    if a.dtype.kind == "O" and code in (5, 6):
        code = 1
    if code == 0:
        return a.copy()
    if a.ndim == 0:
        if code == 6:
            return a.astype(a.dtype.newbyteorder())
        return a.copy()
    if code == 1:                       # step 2 along the last axis, gaps poisoned
        big = poison(a.shape[:-1] + (2 * a.shape[-1] + 1,), a.dtype)
        v = big[..., 0:2 * a.shape[-1]:2]
        v[...] = a
        return v
    if code == 2:                       # negative strides, with a gap
        big = poison(tuple(2 * s + 1 for s in a.shape), a.dtype)
        v = big[tuple(slice(2 * s, 0, -2) if s else slice(0, 0) for s in a.shape)]
        v[...] = a
        return v
    if code == 3:
        return np.asfortranarray(a.copy())
    if code == 4:                       # embedded, step 3 in every axis
        big = poison(tuple(3 * s + 2 for s in a.shape), a.dtype)
        v = big[tuple(slice(1, 3 * s + 1, 3) for s in a.shape)]
        v[...] = a
        return v
    if code == 5:                       # misaligned
        raw = np.zeros(a.nbytes + 1, dtype=np.uint8)
        v = raw[1:1 + a.nbytes].view(a.dtype).reshape(a.shape) if a.nbytes else a.copy()
        v[...] = a
        return v
    if code == 6:                       # non-native byte order
        if a.dtype.itemsize == 1 or a.dtype.kind == "b":
            return a.copy()
        return a.astype(a.dtype.newbyteorder())
    if code == 7:                       # reversed along the last axis only
        v = a[..., ::-1].copy()[..., ::-1]
        return v
    if code == 8:                       # read-only, contiguous, inside a bigger poisoned row
        big = poison(a.shape[:-1] + (a.shape[-1] + 3,), a.dtype)
        v = big[..., 2:2 + a.shape[-1]]
        v[...] = a
        v.flags.writeable = False
        return v
    raise AssertionError(code)


# ---------------------------------------------------------------- calling

MODES = ("batch", "single", "outer", "axes", "out", "outaxes", "first")


def sig_parse(sig):
    if sig is None:
        return None
    s = sig.replace(" ", "")
    a, b = s.split("->")

    def part(p):
        out, depth, cur = [], 0, ""
        for ch in p:
            if ch == "(":
                cur = ""
            elif ch == ")":
                out.append([c for c in cur.split(",") if c])
            else:
                cur += ch
        return out
    return part(a), part(b)


def sig_of(fn):
    if isinstance(fn, np.ufunc) and fn.signature is not None:
        return sig_parse(fn.signature)
    return [[] for _ in range(fn.nin)], [[] for _ in range(fn.nout)]


def asoutlist(r, nout):
    return [r] if nout == 1 else list(r)


def asobj(r):
    if isinstance(r, np.ndarray):
        return r
    a = np.empty((), dtype=object)
    a[()] = r
    return a


def gcall(fn, arrs, mode, layc, bc=None, outdt=None, outcore=None, sig=None, outlay=0):
    """Calls fn on B independent core problems, in a given call style.

    arrs: arrays of shape (B,)+core.  bc[i]: operand i is the same for all
    items and is passed without the batch axis.  Returns a list of arrays of
    shape (B,)+outcore.
    """
    ins, outs = sig or sig_of(fn)
    nin, nout = len(ins), len(outs)
    B = arrs[0].shape[0]
    bc = list(bc or [False] * nin)
    if all(bc):
        bc[0] = False
    base = [a[0, ...] if b else a for a, b in zip(arrs, bc)]
    nm = getattr(fn, "__name__", "fn")
    isobj = any(a.dtype.kind == "O" for a in arrs)
    coredim = {}
    for a, dims in zip(arrs, ins):
        for d, n in zip(dims, a.shape[1:]):
            coredim[d] = n
    oc = [tuple(int(d) if d.isdigit() else coredim[d] for d in dims) for dims in outs]

    def fix(r, batch):
        r = asoutlist(r, nout)
        if len(r) != nout:
            raise Violation(f"{nm} returned {len(r)} outputs")
        out = []
        for a, c in zip(r, oc):
            a = asobj(a) if isobj and not isinstance(a, np.generic) else np.asarray(a)
            if a.shape != batch + c:
                raise Violation(f"{nm}: output shape {a.shape}, expected {batch + c}")
            out.append(a)
        return out

    if mode == "single":
        rs = []
        for b in range(B):
            xs = [lay(a[b, ...], c) for a, c in zip(arrs, layc)]
            rs.append(fix(call(fn, *xs), ()))
        return [np.stack([r[k] for r in rs]) if B else None for k in range(nout)]
    if mode == "first":
        # un-batched scalars/vectors in the form users pass them
        rs = []
        for b in range(B):
            xs = [a[b] for a in arrs]
            rs.append(fix(call(fn, *xs), ()))
        return [np.stack([r[k] for r in rs]) for k in range(nout)]
    if mode == "outer":
        xs = []
        for a, b, c in zip(base, bc, layc):
            if not b:
                a = a.reshape((1, B, 1) + a.shape[1:])
            xs.append(lay(a, c))
        r = fix(call(fn, *xs), (1, B, 1))
        return [a.reshape((B,) + a.shape[3:]) for a in r]
    if mode in ("axes", "outaxes") and any(len(d) for d in ins + outs):
        xs, axes = [], []
        for a, b, dims in zip(base, bc, ins):
            nd = len(dims)
            if nd and not b:
                a = np.moveaxis(a, 0, -1)
                axes.append(tuple(range(nd)))
            elif nd:
                axes.append(tuple(range(nd)))
            else:
                axes.append(())
            xs.append(a)
        xs = [lay(a, c) for a, c in zip(xs, layc)]
        for dims in outs:
            axes.append(tuple(range(len(dims))))
        kw = {}
        if mode == "outaxes" and outdt:
            kw["out"] = tuple(lay(poison(c + (B,), dt), [1, 2, 4][outlay % 3])
                              for c, dt in zip(oc, outdt))
        r = asoutlist(call(fn, *xs, axes=axes, **kw), nout)
        out = []
        for a, c in zip(r, oc):
            a = np.asarray(a)
            if a.shape != c + (B,):
                raise Violation(f"{nm}(axes={axes}): output shape {a.shape}, expected {c + (B,)}")
            out.append(np.moveaxis(a, -1, 0))
        return out
    xs = [lay(a, c) for a, c in zip(base, layc)]
    if mode in ("out", "outaxes") and outdt:
        o = tuple(lay(poison((B,) + c, dt), [1, 2, 3, 4, 0][outlay % 5]) for c, dt in zip(oc, outdt))
        if outlay >= 10 and "bincount" not in nm:
            # out was used before, for the same data in reverse order
            try:
                fn(*[x[..., ::-1] if dims or not any(ins) else x for x, dims in zip(xs, ins)], out=o)
            except Exception:
                pass
        r = call(fn, *xs, out=o)
        rl = asoutlist(r, nout)
        for a, b in zip(rl, o):
            if a is not b:
                raise Violation(f"{nm}: the returned array is not the given out")
        return fix(r, (B,))
    return fix(call(fn, *xs), (B,))


PLAIN = {"mode": "batch", "lay": [0] * 6, "bc": [False] * 6, "ol": 0}


def styled(fn, arrs, sty, outdt=None, sig=None):
    n = len(arrs)
    outs = gcall(fn, arrs, sty["mode"], sty["lay"][:n], bc=None, outdt=outdt, sig=sig,
                 outlay=sty["ol"])
    return shared(fn, arrs, outs, sty["ol"]) if n > 1 else outs


def shared(fn, arrs, outs, code):
    """Core problems in which two operands are equal: half of the time, the result is that of a call with
    the same array for both of them."""
    for i in range(1, len(arrs)):
        for j in range(i):
            if arrs[i].shape != arrs[j].shape or arrs[i].dtype != arrs[j].dtype or arrs[i].ndim < 2:
                continue
            for b in range(arrs[i].shape[0]):
                if (b + code) % 2 and arrs[i][b].tobytes() == arrs[j][b].tobytes():
                    xs = [np.array(a[b]) for a in arrs]
                    xs[i] = xs[j]
                    for k, r in enumerate(asoutlist(call(fn, *xs), len(outs))):
                        if outs[k].dtype.kind != "O" or outs[k].ndim > 1:
                            outs[k] = outs[k].copy()
                            outs[k][b] = r
    return outs


# ---------------------------------------------------------------- comparing

def same(a, b, signed_zero=False):
    """Exact equality of two arrays or scalars; nan equals nan."""
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind == "O" or b.dtype.kind == "O":
        for x, y in zip(a.ravel(), b.ravel()):
            if type(x) is not type(y) and not (isinstance(x, (int, Fraction)) and
                                               isinstance(y, (int, Fraction))):
                return False
            if not (x == y or (x != x and y != y)):
                return False
        return True
    if a.dtype.kind in "fc" or b.dtype.kind in "fc":
        e = (a == b) | ((a != a) & (b != b))
        if signed_zero and a.dtype.kind == "f":
            e &= (np.signbit(a) == np.signbit(b)) | (a != a)
        return bool(e.all())
    return bool((a == b).all())


def pl(a):
    """Plain-data rendering of an array, for messages."""
    return np.array2string(np.asarray(a), threshold=60, precision=21).replace("\n", " ")
