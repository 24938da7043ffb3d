"""Blocks between inaccessible pages: an access outside of the block on the guarded side ends the process."""
import ctypes, mmap
libc = ctypes.CDLL(None, use_errno=True)
libc.mmap.restype = ctypes.c_void_p
libc.mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]
libc.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]
libc.munmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t]
PAGE = 4096

class GuardBlock:
    """side "end": the last byte of the block is the last byte before an inaccessible page;
    side "start": the first byte of the block is the first byte after one (the alignment asked for is kept modulo 64 where
    the side allows: the other side keeps 64 guard bytes)"""
    def __init__(self, size, align, data, side):
        self.size = size
        n = (size + 128 + 64 + PAGE - 1) // PAGE * PAGE
        self.total = n + 2 * PAGE
        self.base = libc.mmap(None, self.total, 3, 0x22, -1, 0)
        libc.mprotect(self.base, PAGE, 0)
        libc.mprotect(self.base + PAGE + n, PAGE, 0)
        lo, hi = self.base + PAGE, self.base + PAGE + n
        ctypes.memset(lo, 0xA5, n)
        self.lo, self.hi = lo, hi
        self.addr = hi - size if side == "end" else lo
        self.whole = (ctypes.c_ubyte * n).from_address(lo)
        self.mv = memoryview(self.whole).cast("B")
        self.off = self.addr - lo
        if data is not None:
            self.mv[self.off:self.off + size] = data
        self.want = None
    def content(self):
        """as Block.content, the guard bytes rewritten to what Block has there when they are untouched"""
        before = bytes(self.mv[:self.off])
        after = bytes(self.mv[self.off + self.size:])
        b = b"\xA5" * 64 if before == b"\xA5" * len(before) else b"TOUCHED-BEFORE".ljust(64)
        a = b"\x5A" * 64 if after == b"\xA5" * len(after) else b"TOUCHED-AFTER".ljust(64)
        return b + bytes(self.mv[self.off:self.off + self.size]) + a
    def __del__(self):
        try:
            self.mv.release()
        except Exception:
            pass
        libc.munmap(self.base, self.total)
