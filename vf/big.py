"""Arrays that are too long, or whose strides are too large, for 32 bits.

Virtual memory only: an array with more than 2**31 elements is one chunk of
memory mapped again and again (so that its content is periodic and a write
costs no memory), except for private copies of the chunks that hold the
positions of interest.
"""
import ctypes
import mmap
import os
import numpy as np

libc = ctypes.CDLL(None, use_errno=True)
libc.mmap.restype = ctypes.c_void_p
libc.mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]
libc.munmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t]
NORESERVE, FIXED = 0x4000, 0x10
RW = mmap.PROT_READ | mmap.PROT_WRITE


def _map(addr, n, prot, flags, fd=-1):
    p = libc.mmap(addr, n, prot, flags, fd, 0)
    if p in (None, ctypes.c_void_p(-1).value):
        raise MemoryError("mmap")
    return p


class Long:
    """x: an array of `shape` and dtype; content of period len(chunk items), private at `at` (indices along axis 0)"""

    def __init__(self, n, core, dt, chunk, at=()):
        dt = np.dtype(dt)
        self.item = dt.itemsize * int(np.prod(core))
        rows, cb = len(chunk), len(chunk) * self.item
        assert cb % 4096 == 0 and chunk.dtype == dt and chunk.shape[1:] == tuple(core)
        self.rows, self.cb = rows, cb
        k = -(-n // rows)
        self.size = k * cb
        fd = os.memfd_create("chunk")
        try:
            os.write(fd, chunk.tobytes()) if cb < (1 << 20) else os.pwrite(fd, chunk.tobytes(), 0)
            assert os.fstat(fd).st_size == cb
            self.base = _map(None, self.size, 0, mmap.MAP_PRIVATE | mmap.MAP_ANONYMOUS | NORESERVE)
            own = {i // rows for i in at}
            for j in range(k):
                _map(self.base + j * cb, cb, RW, (mmap.MAP_PRIVATE if j in own else mmap.MAP_SHARED) | FIXED, fd)
        finally:
            os.close(fd)
        raw = (ctypes.c_char * self.size).from_address(self.base)
        self.x = np.frombuffer(raw, dtype=dt, count=n * int(np.prod(core))).reshape((n,) + tuple(core))

    def close(self):
        if self.base:
            libc.munmap(self.base, self.size)
            self.base = 0


class Arena:
    """Zero memory of `size` bytes that takes memory only where it is used."""

    def __init__(self, size):
        self.base = _map(None, size, RW, mmap.MAP_PRIVATE | mmap.MAP_ANONYMOUS | NORESERVE)
        self.size = size
        self.raw = np.frombuffer((ctypes.c_char * size).from_address(self.base), dtype="B")

    def view(self, shape, dt, strides, off):
        dt = np.dtype(dt)
        return np.ndarray(shape, dtype=dt, buffer=self.raw, offset=off, strides=strides)

    def close(self):
        libc.munmap(self.base, self.size)
