"""Comparison of packed results."""
import numpy as np

def unpack(p):
    """packed array/scalar -> ndarray"""
    if p[0] in ("arr", "gen"):
        return np.frombuffer(p[3], p[1] if not isinstance(p[1], str) else np.dtype(p[1])).reshape(p[2])
    return None

def _feq(x, y, signed_zero=True):
    with np.errstate(all="ignore"):
        e = x == y
        if signed_zero:
            e = e & (np.signbit(x) == np.signbit(y))
        return e | (np.isnan(x) & np.isnan(y))

def mismatch_mask(x, y, signed_zero=True):
    if x.dtype.kind == "f":
        return ~_feq(x, y, signed_zero)
    if x.dtype.kind == "c":
        return ~(_feq(x.real, y.real, signed_zero) & _feq(x.imag, y.imag, signed_zero))
    if x.dtype.kind == "V":
        a = np.frombuffer(x.tobytes(), "u1").reshape(x.shape + (x.dtype.itemsize,))
        b = np.frombuffer(y.tobytes(), "u1").reshape(y.shape + (y.dtype.itemsize,))
        return (a != b).any(-1)
    if x.dtype.kind in "mM":
        return x.view("i8") != y.view("i8")
    return x != y

class Diff:
    def __init__(self, kind, msg, mask=None, got=None, want=None):
        self.kind, self.msg, self.mask, self.got, self.want = kind, msg, mask, got, want
    def __repr__(self):
        return "Diff(%s,%s)" % (self.kind, self.msg)

def diff_packed(g, w, signed_zero=True, tol=None):
    """g: got (target), w: wanted (reference); both packed.  tol(got,want)->bool mask of accepted"""
    if g[0] != w[0]:
        return Diff("type", "result kind %s, expected %s" % (g[0], w[0]))
    if g[0] in ("arr", "gen"):
        if g[1] != w[1] or tuple(g[2]) != tuple(w[2]):
            return Diff("type", "dtype/shape %s%s, expected %s%s" % (g[1], g[2], w[1], w[2]))
        if g[3] == w[3]:
            return None
        x, y = unpack(g), unpack(w)
        m = mismatch_mask(x, y, signed_zero)
        if tol is not None and m.any():
            m = m & ~tol(x, y)
        if m.any():
            i = int(np.flatnonzero(m.ravel())[0])
            return Diff("value", "%d of %d elements differ; first at flat index %d: got %r, expected %r"
                        % (int(m.sum()), m.size, i, x.ravel()[i], y.ravel()[i]), m, x, y)
        return None
    if g[0] in ("tup", "lst"):
        if len(g[1]) != len(w[1]):
            return Diff("type", "lengths differ")
        for a, b in zip(g[1], w[1]):
            d = diff_packed(a, b, signed_zero, tol)
            if d:
                return d
        return None
    if g[0] == "dct":
        if [k for k, _ in g[1]] != [k for k, _ in w[1]]:
            return Diff("type", "keys %s, expected %s" % ([k for k, _ in g[1]], [k for k, _ in w[1]]))
        for (k, a), (_, b) in zip(g[1], w[1]):
            d = diff_packed(a, b, signed_zero, tol)
            if d:
                d.msg = "key %r: %s" % (k, d.msg)
                return d
        return None
    if g != w:
        return Diff("value", "got %r, expected %r" % (g, w))
    return None

def diff_step(g, w, **kw):
    """compare the outcomes of one step (ok/exc)"""
    if g[0] == "skip" or w[0] == "skip":
        return None
    if g[0] != w[0]:
        return Diff("outcome", "got %s, expected %s" % (g[:3] if g[0] == "exc" else "a result", w[:3] if w[0] == "exc" else "a result"))
    if g[0] == "exc":
        if g[1] != w[1]:
            return Diff("outcome", "got exception %s, expected %s" % (g[1:3], w[1:3]))
        return None
    return diff_packed(g[1], w[1], **kw)

def diff_mem(got, want, case, written=()):
    """compare raw memory of all blocks.  `written`: indices of arrs that the steps may legitimately write
    (their *elements* are compared by the caller); every other byte must be identical."""
    for i, (g, w) in enumerate(zip(got["mem"], want["mem"])):
        if g == w:
            continue
        a = np.frombuffer(g, "u1"); b = np.frombuffer(w, "u1")
        bad = a != b
        for k in written:
            spec = case["arrs"][k]
            if spec[0] != i:
                continue
            dt = spec[1] if isinstance(spec[1], np.dtype) else np.dtype(spec[1])
            mask = np.zeros(len(a), np.bool_)
            mv = np.ndarray(tuple(spec[2]) + (dt.itemsize,), np.bool_, buffer=mask.data, offset=64 + spec[4], strides=tuple(spec[3]) + (1,))
            mv[...] = True
            bad &= ~mask
        if bad.any():
            j = int(np.flatnonzero(bad)[0]) - 64
            size = case["bufs"][i]["size"]
            where = "outside the array (guard bytes)" if (j < 0 or j >= size) else "inside a block that must not change there"
            return Diff("memory", "block %d byte %d (block size %d) %s: got %02x expected %02x" % (i, j, size, where, a[j + 64], b[j + 64]))
    return None

def written_elements(got, want, case, k):
    """(got, want) ndarrays of the final content of array k"""
    spec = case["arrs"][k]
    dt = spec[1] if isinstance(spec[1], np.dtype) else np.dtype(spec[1])
    r = []
    for o in (got, want):
        r.append(np.ndarray(tuple(spec[2]), dt, buffer=o["mem"][spec[0]], offset=64 + spec[4], strides=tuple(spec[3])).copy())
    return r
