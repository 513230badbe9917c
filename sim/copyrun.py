"""Simulated runs of the native copy routine: chosen addresses, sizes, thread counts and thread timing."""
import ctypes
import hashlib
import mmap

import numpy as np

from . import proc

PAGE = mmap.PAGESIZE
libc = ctypes.CDLL(None, use_errno=True)
libc.mmap.restype = ctypes.c_void_p
libc.mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]
libc.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]
libc.munmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t]


class Area:
    """Memory of n bytes at a chosen alignment, between zones that show every stray access."""

    def __init__(self, n, align, edge):
        self.n = n
        body = (n + 64 + 256 + PAGE - 1) // PAGE * PAGE + PAGE
        self.len = body + 2 * PAGE
        self.base = libc.mmap(None, self.len, 3, 0x22, -1, 0)
        assert self.base not in (None, ctypes.c_void_p(-1).value)
        lo = self.base + PAGE
        hi = self.base + PAGE + body
        libc.mprotect(self.base, PAGE, 0)
        libc.mprotect(hi, PAGE, 0)
        if edge == 2 and n:  # the last byte is the last accessible one
            at = hi - n
        elif edge == 1:  # the first byte is the first accessible one
            at = lo
        else:
            at = lo + 128 + (align - (lo + 128)) % 64
        self.whole = np.ctypeslib.as_array((ctypes.c_uint8 * body).from_address(lo))
        self.off = at - lo
        self.view = self.whole[self.off : self.off + n]

    def free(self):
        self.view = self.whole = None
        libc.munmap(self.base, self.len)


def covered(so, d0, s0, n):
    """What the recorded copies miss or do wrong, for a copy of n bytes from s0 to d0."""
    cs = sorted(tuple(so.sim_copy_at(i, k) for k in range(3)) for i in range(so.sim_copy_count()))
    at = 0
    for d, s, m in cs:
        if d < d0 or d + m > d0 + n or m > 1 << 62:
            return f"{m} bytes are written at offset {d - d0} of the destination"
        if d - d0 != s - s0:
            return f"bytes {s - s0} and up of the source are written to {d - d0} and up"
        if d - d0 > at:
            return f"bytes {at} to {d - d0} are not copied"
        at = max(at, d - d0 + m)
    return None if at == n else f"bytes {at} to {n} are not copied"


def huge(m, so, o, bad, rec, faithful=[]):
    """A buffer larger than memory: the copies are recorded, not made."""
    if not faithful:
        src, dst = Area(5000, 3, 0), Area(5000, 5, 0)
        src.whole[:] = 1
        dst.whole[:] = 0
        so.sim_copy_record(src.base, dst.base, src.len)
        m.parallel_memcopy(src.view, dst.view, 2)
        c = covered(so, dst.view.ctypes.data, src.view.ctypes.data, 5000)
        so.sim_copy_record(0, 0, 0)
        so.sim_thread_flush()
        faithful.append(c is None and not dst.whole.any())
        src.free()
        dst.free()
    if not faithful[0]:  # bytes move in other ways
        return
    n = o["n"]
    size = n + 4 * PAGE
    a = [libc.mmap(None, size, 3, 0x4022, -1, 0) for _ in range(2)]
    v = [np.ctypeslib.as_array((ctypes.c_uint8 * n).from_address(x + PAGE + k)) for x, k in zip(a, (o["sa"], o["da"]))]
    so.sim_thread_seed(o["order"])
    so.sim_copy_record(a[0], a[1], size)
    try:
        m.parallel_memcopy(v[0], v[1], o["threads"])
        c = covered(so, v[1].ctypes.data, v[0].ctypes.data, n)
    finally:
        so.sim_copy_record(0, 0, 0)
    so.sim_thread_flush()
    if c:
        bad("copy", f"copy of {n} bytes, {o['threads']} threads, source/destination address modulo 64: {o['sa']}/{o['da']}: {c}")
    rec("huge")
    v = None
    for x in a:
        libc.munmap(x, size)


def run_ops(ops, bad, rec):
    m = proc.NATIVE["unidist.core.backends.mpi.core._memory"]
    so = ctypes.CDLL(proc.NATIVE_SO)
    sim = hasattr(so, "sim_thread_seed")
    h = hashlib.blake2b(digest_size=8)
    if sim:
        so.sim_thread_seed.argtypes = [ctypes.c_uint64]
        so.sim_copy_at.restype = ctypes.c_uint64
        so.sim_copy_record.argtypes = [ctypes.c_uint64] * 3
    for i, (kind, o) in enumerate(ops):
        rs = np.random.RandomState(o["data"])
        if kind == "fill":
            a = Area(o["n"] * 8, 0, o["edge"])
            a.whole[:] = 0x5A
            if o["n"]:
                v = a.view.view(np.int64) if (a.base + PAGE + a.off) % 8 == 0 else None
                if v is not None:
                    m.fill(v, o["value"])
                    if not (v == o["value"]).all():
                        bad("fill", f"fill#{i} of {o['n']} values left others")
                    a.view[:] = 0x5A
                    if (a.whole != 0x5A).any():
                        bad("fill", f"fill#{i} of {o['n']} values wrote outside")
            a.free()
            continue
        n, th = o["n"], o["threads"]
        if kind == "huge":
            if sim:
                huge(m, so, o, bad, rec)
                h.update(repr((n, th, o["sa"], o["da"], o["order"])).encode())
            continue
        src, dst = Area(n, o["sa"], o["se"]), Area(n + o["slack"], o["da"], o["de"])
        src.whole[:] = 0x33
        src.view[:] = np.frombuffer(rs.bytes(n), dtype=np.uint8)
        want = src.view.copy()
        dst.whole[:] = 0xC7
        s, d = src.view, dst.view
        if o["ro"]:
            s = s[:]
            s.flags.writeable = False
        if sim:
            so.sim_thread_seed(o["order"])
        at = f"copy#{i} of {n} bytes, {th} threads, source/destination address modulo 64: {src.off % 64}/{dst.off % 64}, thread order {o['order']}"
        m.parallel_memcopy(s, d, th)
        got = d[:n].copy()
        if not np.array_equal(got, want):
            k = int(np.flatnonzero(got != want)[0])
            bad("copy", f"{at}: the destination differs from the source at byte {k} of {n}")
        if sim and so.sim_thread_left():
            rec("late")
            so.sim_thread_flush()
        if not np.array_equal(src.view, want) or (src.whole[: src.off] != 0x33).any() or (src.whole[src.off + n :] != 0x33).any():
            bad("copy", f"{at}: the source was changed")
        if (dst.whole[: dst.off] != 0xC7).any() or (dst.whole[dst.off + n :] != 0xC7).any():
            bad("copy", f"{at}: bytes outside of the destination were written")
        h.update(repr((n, th, src.off % 64, dst.off % 64, o["order"])).encode())
        rec("copy")
        s = d = got = None
        src.free()
        dst.free()
    return h.hexdigest()
