"""Arrays that span more memory, or have more elements, than 32 bits can count (runs in the target and in the reference)."""
import ctypes, mmap
import numpy as np

LIBC = ctypes.CDLL(None)
LIBC.memcmp.argtypes = LIBC.memcpy.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_size_t]

def sparse(span):
    """zeros that take no memory until they are written"""
    return np.frombuffer(mmap.mmap(-1, span, flags=mmap.MAP_PRIVATE | mmap.MAP_ANONYMOUS | 0x4000), np.uint8)     # NORESERVE

def spread(vals, stride):
    """the values, `stride` bytes apart (negative: from the end)"""
    n, isz = len(vals), vals.dtype.itemsize
    if abs(stride) <= isz:
        v = vals.copy()
        return v[::-1][::-1]
    raw = sparse(abs(stride) * max(n - 1, 0) + isz + 64)
    v = np.ndarray((n,), vals.dtype, buffer=raw, offset=0 if stride > 0 else -stride * (n - 1), strides=(stride,))
    v[...] = vals
    return v

def strided(d, vals):
    """the operation d on values spread over memory"""
    a = [spread(v, s) for v, s in zip(vals, d["strides"])]
    k, f = d["k"], d["f"]
    if k in ("unary", "binary", "compare"):
        u = getattr(np, f)
        r = u(*a)
        if d["out"]:
            o = spread(np.zeros(len(r), r.dtype), d["out"])
            u(*a, out=o)
            return [r, o.copy()]
        return r
    if k == "reduce":
        return getattr(np, f).reduce(a[0])
    if k == "accumulate":
        return getattr(np, f).accumulate(a[0])
    if k == "inplace":
        getattr(np, f)(a[0], a[1], out=a[0])
        return a[0].copy()
    if k == "sort":
        a[0].sort(kind=f)
        return a[0].copy()
    if k == "argsort":
        return a[0].argsort(kind=f)
    if k == "argmax":
        return getattr(a[0], f)()
    if k == "take":
        import sys
        if "pnumpy" in sys.modules:
            import pnumpy as pn
            return pn.getitem(a[0], a[1])
        return a[0][a[1]]
    if k == "lexsort":
        import sys
        if "pnumpy" in sys.modules:
            import pnumpy as pn
            return getattr(pn, f)(a).astype("i8")
        return np.lexsort(a)
    if k == "rec":
        import sys
        if "pnumpy" in sys.modules:
            import pnumpy as pn
            c = pn.recarray_to_colmajor(a[0])
            return [np.array(c[x]) for x in a[0].dtype.names]
        return [np.ascontiguousarray(a[0][x]) for x in a[0].dtype.names]
    raise ValueError(k)

# ---------------------------------------------------------------- many elements
def periodic(block, n):
    """block, block, ... : n elements"""
    out = np.empty(n, block.dtype)
    m = min(len(block), n)
    out[:m] = block[:m]
    p, isz = out.ctypes.data, out.dtype.itemsize
    while m < n:
        k = min(m, n - m)
        LIBC.memcpy(p + m * isz, p, k * isz)
        m += k
    return out

def follows(out, block):
    """-> index of a period that differs from block, or None"""
    n, m, isz = len(out), len(block), out.dtype.itemsize
    if out.dtype != block.dtype:
        return "dtype %s, expected %s" % (out.dtype, block.dtype)
    if out[:m].tobytes() != block[:n].tobytes():
        return "the first elements"
    p = out.ctypes.data
    if n > m and LIBC.memcmp(p, p + m * isz, (n - m) * isz):
        lo, hi = 0, n - m          # the first element that differs from the one a period before
        while hi - lo > 1:
            mid = (lo + hi) // 2
            if LIBC.memcmp(p, p + m * isz, mid * isz):
                hi = mid
            else:
                lo = mid
        return "element %d" % (lo + m)
    return None

def block(dt, p, seed, k):
    rng = np.random.default_rng([seed, k])
    if dt == "?":
        return rng.integers(0, 2, p).astype("?")
    if np.dtype(dt).kind == "f":
        return rng.integers(1, 90, p).astype(dt)
    i = np.iinfo(dt)
    return rng.integers(i.min, i.max, p, dtype=dt, endpoint=True) if np.dtype(dt).itemsize < 8 else rng.integers(-10**9, 10**9, p).astype(dt)

def long(pn, d):
    """-> None, or what is wrong"""
    n, p, k, f, dt = d["n"], d["p"], d["k"], d["f"], d["dt"]
    b = [block(dt, p, d["seed"], i) for i in range(2)]
    with np.errstate(all="ignore"):
        if k == "unary":
            return follows(getattr(np, f)(periodic(b[0], n)), small(getattr(np, f), b[0]))
        if k == "binary":
            return follows(getattr(np, f)(periodic(b[0], n), periodic(b[1], n)), small(getattr(np, f), b[0], b[1]))
        if k == "scalar":
            return follows(getattr(np, f)(periodic(b[0], n), b[1][0]), small(getattr(np, f), b[0], b[1][0]))
        if k == "inplace":
            a = periodic(b[0], n)
            getattr(np, f)(a, b[1][0], out=a)
            return follows(a, small(getattr(np, f), b[0], b[1][0]))
    if k == "sum":
        whole, rest = divmod(n, p)
        want = int(b[0].sum(dtype="i8")) * whole + int(b[0][:rest].sum(dtype="i8"))
        got = int(periodic(b[0], n).sum(dtype="i8" if d["cast"] else None))
        return None if got == want else "sum %d, expected %d" % (got, want)
    if k == "needle":
        a = np.zeros(n, dt)
        a[d["at"]] = 1
        got = [int(a.max()), int(a.argmax()), bool(np.logical_or.reduce(a)) if dt == "?" else 1, int(np.count_nonzero(a))]
        return None if got == [1, d["at"], 1, 1] else "max, argmax, any, count: %s, expected 1, %d, 1, 1" % (got, d["at"])
    if k == "sort":
        a = periodic(b[0], n)
        whole, rest = divmod(n, p)
        v, c = np.unique(b[0], return_counts=True)
        c = c * whole + np.array([(b[0][:rest] == x).sum() for x in v])
        a.sort(kind=f)
        at = 0
        for x, m in zip(v, c):
            r = a[at:at + int(m)]
            w = follows(r, np.array([x], a.dtype)) if m else None
            if w:
                return "sorted: value %r at %d: %s" % (x, at, w)
            at += int(m)
        return None
    if k == "mask":
        a, m = periodic(b[0], n), periodic(block("?", p, d["seed"], 5), n)
        return follows(pn.getitem(a, m), b[0][m[:p]])
    if k == "fancy":
        a = np.zeros(n, dt)
        i = np.random.default_rng(d["seed"]).integers(-n, n, 70000)
        a[i] = 1
        a[i[::3]] = 3
        want = np.where(np.isin(i % n, i[::3] % n), 3, 1).astype(dt)
        got = pn.getitem(a, i)
        return None if got.dtype == want.dtype and got.tobytes() == want.tobytes() else "the items are not those at the indices"
    if k == "arange":
        got = np.arange(n, dtype=dt)
        per = np.arange(256 ** np.dtype(dt).itemsize).astype(dt)
        return follows(got, per)
    if k == "rec":
        r = np.zeros(p, [("a", dt), ("b", dt)][:f])
        for x, y in zip("ab"[:f], b):
            r[x] = y
        r = periodic(r, n)
        c = pn.recarray_to_colmajor(r)
        del r
        return follows(c["a"], b[0]) or (follows(c["b"], b[1]) if f == 2 else None)
    if k == "lexsort32":       # more rows than 32 bits can number
        try:
            r = pn.lexsort32(np.zeros(n, dt))
        except (ValueError, IndexError, OverflowError):
            return None
        return "returned indices of type %s" % r.dtype
    raise ValueError(k)

def small(u, *a):
    """a copy of what numpy gives for one period (short: no vector loop needs to agree)"""
    return np.array([u(*[x[i] if isinstance(x, np.ndarray) and x.ndim else x for x in a]) for i in range(len(a[0]))]).astype(u(*[x[:1] if isinstance(x, np.ndarray) and x.ndim else x for x in a]).dtype)
