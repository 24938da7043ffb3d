"""Generators: JSON-able descriptors -> concrete cases (see vexec).

Everything random is derived from the descriptor (data come from a numpy Generator seeded by the
descriptor), so a descriptor is a complete, replayable reproduction.
"""
import functools
import numpy as np
from hypothesis import strategies as st
import vexec

INTS = ["i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8", "q", "Q"]
FLOATS = ["f4", "f8"]
HOOKED = ["?"] + INTS + FLOATS

# ---------------------------------------------------------------- lengths
# boundaries of the vector (4..32 lanes, unrolled), chunk (16384) and thread (65536) logic
SMALL = sorted(set([0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 47, 48, 63, 64, 65, 95, 96, 97, 127, 128, 129, 255, 256, 257]))
MID = [300, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385, 32767, 32768, 32769]
BIG = [65535, 65536, 65537, 65540, 65568, 70001, 81919, 81920, 81921, 98304, 98305, 114688, 131071, 131072, 131073, 147456 + 7, 163840, 180225, 200003, 262143, 262144, 262145, 300007]

BIAS = 0       # set while the strategies of the concurrency and configuration properties are built: more long arrays

def lengths(big=1, mid=2, small=6, lo=0):
    if BIAS and big:
        big, mid, small = BIAS, 1, 2
    parts = []
    parts += [st.sampled_from([x for x in SMALL if x >= lo])] * small
    parts += [st.integers(lo, 300)] * max(1, small // 3)
    parts += [st.sampled_from(MID)] * (mid // 2 + mid % 2) + [st.integers(257, 40000)] * (mid // 2)
    parts += [st.sampled_from(BIG)] * big
    if big:
        parts += [st.integers(65536, 140000)]
    return st.one_of(*parts)

seeds = st.integers(0, 2**20 - 1)

# ---------------------------------------------------------------- values
FSPEC = [0.0, -0.0, 1.0, -1.0, np.nan, np.nan, np.nan, np.nan, np.inf, -np.inf, 0.5, 1.5, 2.5, -0.5, -1.5, -2.5, 3.5, 1e-310, -1e-310, 5e-324, 3e38, -3e38, 1e308, -1e308,
         0.1, 10.0, 1e-40, 2.0**-126, 2.0**-1022, 4503599627370495.5, 4503599627370496.0, 8388607.5, 8388608.0, 16777217.0, 2147483648.0, -2147483648.5,
         9.3e18, 0.49999999999999994, 0.49999997, -0.49999997, 1e10, 65504.0]
FCLS = ["mixed", "normal", "special", "nonan", "moderate", "ints", "const", "bits", "onespecial"]
ICLS = ["mixed", "full", "small", "extreme", "const", "nonneg", "near", "shift"]

def quiet(a):
    """numpy's own results depend on the order of evaluation when signalling NaNs occur: use quiet ones"""
    a[np.isnan(a)] = np.nan
    return a

def values(dt, n, cls, seed):
    dt = np.dtype(dt)
    if cls.startswith("t:"):
        return tvalues(dt, n, cls[2:], seed)
    rng = np.random.default_rng([seed, n])
    with np.errstate(all="ignore"):
        if dt.char in "qQ":
            return _values(np.dtype(dt.str), n, cls, rng).view(dt)
        a = _values(dt, n, cls, rng)
    return canon(np.ascontiguousarray(a)) if a.dtype.char == "g" else a

def pads(dt):
    """offsets of the padding bytes of the 80-bit values in an element"""
    lo = 10 if dt.isnative else 0
    if dt.char == "g":
        return list(range(lo, lo + 6))
    if dt.char == "G":
        return list(range(lo, lo + 6)) + list(range(lo + 16, lo + 22))
    if dt.subdtype:
        b, shp = dt.subdtype
        return [i * b.itemsize + k for i in range(int(np.prod(shp))) for k in pads(b)]
    if dt.names:
        return [dt.fields[n][1] + k for n in dt.names for k in pads(dt.fields[n][0])]
    return []

def canon(a, raw=None, off=0, strides=None):
    """the padding bytes of 80-bit values are part of the case: make them known"""
    p = pads(a.dtype)
    if p and a.size:
        u = np.ndarray(a.shape + (a.dtype.itemsize,), np.uint8, buffer=a.data if raw is None else raw.data, offset=off, strides=(strides or a.strides) + (1,))
        u[..., p] = 0
    return a

def _values(dt, n, cls, rng):
    if dt.kind == "b":
        if cls == "const":
            return np.full(n, bool(rng.integers(0, 2)))
        p = {"small": 0.05, "extreme": 0.95, "special": 0.02, "near": 0.99}.get(cls, 0.5)
        return rng.random(n) < p
    if dt.kind in "iu":
        ii = np.iinfo(dt)
        if cls == "const":
            return np.full(n, rng.choice(np.array([0, 1, ii.max, ii.min, 7], dtype=object)), dtype=dt)
        if cls == "small":
            return rng.integers(max(ii.min, -5), 11, n).astype(dt)
        if cls == "nonneg":
            return rng.integers(0, min(ii.max, 1000), n, endpoint=True).astype(dt)
        if cls == "shift":
            return rng.integers(max(ii.min, -2), dt.itemsize * 8 + 3, n).astype(dt)
        if cls == "near":        # distinct values sharing their low or high bits
            base = rng.integers(ii.min, ii.max, 1, dtype=dt, endpoint=True)[0]
            k = rng.integers(0, dt.itemsize * 8, n)
            b = np.full(n, base, dtype=dt).view("u%d" % dt.itemsize)
            m = rng.random(n) < 0.5
            b[m] ^= (np.ones(n, b.dtype) << k.astype(b.dtype))[m]
            return b.view(dt)
        if cls == "extreme":
            e = [ii.min, ii.min + 1, ii.max, ii.max - 1, 0, 1, ii.max // 2, ii.max // 2 + 1]
            if ii.min < 0:
                e.append(-1)
            return rng.choice(np.array(e, dtype=dt), n)
        a = rng.integers(ii.min, ii.max, n, dtype=dt, endpoint=True)
        if cls == "full":
            return a
        m = rng.random(n) < 0.5
        a[m] = rng.integers(max(-4, ii.min), 11, m.sum()).astype(dt)
        m = rng.random(n) < 0.1
        a[m] = rng.choice(np.array([ii.min, ii.max], dtype=dt), m.sum())
        return a
    if dt.kind == "f":
        sp = np.array(FSPEC).astype(dt)
        if cls == "const":
            return np.full(n, rng.choice(sp), dtype=dt)
        if cls == "special":
            return rng.choice(sp, n)
        if cls == "bits" and dt.itemsize in (4, 8):
            return quiet(rng.integers(0, 2**(8 * dt.itemsize) - 1, n, dtype="u%d" % dt.itemsize, endpoint=True).view(dt).copy())
        if cls == "ints":
            return rng.integers(-20, 21, n).astype(dt)
        if cls == "moderate":
            return (rng.uniform(0.25, 4.0, n) * rng.choice([-1, 1], n)).astype(dt)
        if cls == "normal":
            return rng.standard_normal(n).astype(dt)
        a = (rng.standard_normal(n) * 10.0 ** rng.integers(-3, 4, n)).astype(dt)
        if cls == "onespecial":
            if n:
                k = int(rng.integers(1, 4))
                a[rng.integers(0, n, k)] = rng.choice(sp, k)
            return a
        m = rng.random(n) < 0.25
        a[m] = rng.choice(sp, m.sum())
        if cls == "nonan":
            a[~np.isfinite(a)] = dt.type(1.25)
        return a
    if dt.kind == "c":
        f = "f%d" % (dt.itemsize // 2)
        return (_values(np.dtype(f), n, cls, rng) + 1j * _values(np.dtype(f), n, "normal", rng)).astype(dt)
    if dt.kind in "SU":
        w = dt.itemsize // (1 if dt.kind == "S" else 4)
        pool = ["", "a", "b", "aa", "ab", "abc", "b" * w, "\x7f" * w, "z"]
        if dt.kind == "U":
            pool += ["\u00e9", "\u0100", "\U0001F600", "a\u0100"]
        else:
            pool += ["\xe9", "\xff" * w, "\x80"]
        alph = list("abcXYZ019 ~") + (["\u0100", "\u00e9", "\U0001F600", "\u00ff"] if dt.kind == "U" else ["\xff", "\x80"])
        if cls == "const":
            v = [pool[int(rng.integers(len(pool)))]] * n
        else:
            if cls in ("small", "dups"):
                kk = 7
            else:
                kk = 4 * n + 1
            cand = []
            m = min(kk, n) if kk < n else n
            lens = rng.integers(0, w + 1, m)
            ch = rng.integers(0, len(alph), (m, max(w, 1)))
            for i in range(m):
                cand.append("".join(alph[c] for c in ch[i, :lens[i]]))
            cand += pool
            pick = rng.integers(0, len(cand), n)
            v = [cand[i] for i in pick]
        if dt.kind == "S":
            v = [x.encode("latin1") for x in v]
        return np.array(v, dtype=dt) if n else np.zeros(0, dt)
    if dt.kind in "mM":
        a = rng.integers(-1000, 1000, n).astype("i8")
        if cls in ("mixed", "special"):
            a[rng.random(n) < 0.1] = np.iinfo("i8").min
        return a.view(dt)
    if dt.kind == "V" and dt.names:
        out = np.zeros(n, dt)
        for k in dt.names:
            sub = dt.fields[k][0]
            if sub.subdtype:
                b, shp = sub.subdtype
                out[k] = _values(b, n * int(np.prod(shp)), cls, rng).reshape((n,) + shp)
            else:
                out[k] = _values(sub, n, cls, rng)
        return out
    raise TypeError(dt)

TSPEC = [0.0, -0.0, 1.0, -1.0, np.nan, np.inf, -np.inf, 0.5, -0.5, 1e-310, -1e-310, 5e-324, 1e-40, -1e-40, 3e38, -3e38, 1e308, -1e308, 700.0, 709.0, 710.0, -709., -745.0, -746.0, -750., 88.0, 88.8, 89.0, -87.4, -88.0, -103.9, -104.5, -110.0,
        2.0**-126, 2.0**-1022, np.pi, np.pi / 2, -np.pi, np.pi / 4, 8192.0, 8193.0, 1e6, 1.1e6, 1e9, 1e15, 1e22, 2.0**24, 1024.0, -1022.0, 1023.5, 127.5, -126.0, -149.0, -1074.0, 0.7071067811865476, 1.4142135623730951, 0.9999999, 1.0000001]
TCLS = ["small", "unit", "octant", "medium", "wide", "special", "mixed", "bits", "onespecial", "const", "positive", "range", "nearint"]

def tvalues(dt, n, cls, seed):
    dt = np.dtype(dt)
    if dt.kind != "f":
        return values(dt, n, "mixed" if cls not in ICLS else cls, seed)
    rng = np.random.default_rng([seed, n, 4])
    with np.errstate(all="ignore"):
        sp = np.array(TSPEC).astype(dt)
        if cls == "small": return (rng.standard_normal(n) * 10.0 ** rng.integers(-8, 0, n)).astype(dt)
        if cls == "unit": return rng.uniform(-1, 1, n).astype(dt)
        if cls == "octant":
            k = rng.integers(-40, 41, n)
            return (k * (np.pi / 4) + rng.standard_normal(n) * 10.0 ** rng.integers(-6, 0, n)).astype(dt)
        if cls == "medium": return rng.uniform(-100, 100, n).astype(dt)
        if cls == "wide": return (rng.standard_normal(n) * 10.0 ** rng.integers(-5, 9, n)).astype(dt)
        if cls == "special": return rng.choice(sp, n)
        if cls == "bits":
            return quiet(rng.integers(0, 2**(8 * dt.itemsize) - 1, n, dtype="u%d" % dt.itemsize, endpoint=True).view(dt).copy())
        if cls == "const": return np.full(n, rng.choice(sp), dt)
        if cls == "positive": return np.exp(rng.uniform(-80, 80, n)).astype(dt)
        if cls == "range": return rng.uniform(-760, 760, n).astype(dt) if dt.itemsize == 8 else rng.uniform(-110, 110, n).astype(dt)
        if cls == "nearint": return (rng.integers(-30, 31, n) + rng.choice([0, 0.5, 1e-7, -1e-7, 0.25], n)).astype(dt)
        a = rng.uniform(-20, 20, n).astype(dt)
        if cls == "onespecial":
            if n:
                k = int(rng.integers(1, 4)); a[rng.integers(0, n, k)] = rng.choice(sp, k)
            return a
        m = rng.random(n) < 0.2
        a[m] = rng.choice(sp, m.sum())
        return a


# McIlroy's adversary: inputs that drive a quicksort into its depth limit
@functools.lru_cache(60)
def killer(n, small=16, rounds=44):
    """a permutation of 0..n-1 on which a median-of-three quicksort (middle element as pivot) makes skewed partitions, `rounds` times"""
    gas = n - 1
    val = [gas] * n
    st = {"solid": 0, "cand": -1}
    def lt(x, y):
        if val[x] == gas and val[y] == gas:
            if x == st["cand"]: val[x] = st["solid"]
            else: val[y] = st["solid"]
            st["solid"] += 1
        if val[x] == gas: st["cand"] = x
        elif val[y] == gas: st["cand"] = y
        return val[x] < val[y]
    a = list(range(n))
    stack = []; pl, pr = 0, n - 1
    while True:
        while pr - pl > small and rounds:
            rounds -= 1
            pm = pl + ((pr - pl) >> 1)
            if lt(a[pm], a[pl]): a[pm], a[pl] = a[pl], a[pm]
            if lt(a[pr], a[pm]): a[pm], a[pr] = a[pr], a[pm]
            if lt(a[pm], a[pl]): a[pm], a[pl] = a[pl], a[pm]
            vp = a[pm]; pi = pl; pj = pr - 1
            a[pm], a[pj] = a[pj], a[pm]
            while True:
                pi += 1
                while lt(a[pi], vp): pi += 1
                pj -= 1
                while lt(vp, a[pj]): pj -= 1
                if pi >= pj: break
                a[pi], a[pj] = a[pj], a[pi]
            a[pi], a[pr - 1] = a[pr - 1], a[pi]
            if pi - pl < pr - pi:
                stack.append((pi + 1, pr)); pr = pi - 1
            else:
                stack.append((pl, pi - 1)); pl = pi + 1
        if not stack or not rounds: break
        pl, pr = stack.pop()
    r = [0] * n
    for k, i in enumerate(sorted(range(n), key=lambda i: (val[i], i * 7919 % 10007))): r[i] = k
    return r

def ordered(a, order, seed):
    """reorder data for the sorting properties"""
    n = len(a)
    rng = np.random.default_rng([seed, 77])
    if order == "asis" or n < 2:
        return a
    s = np.sort(a)
    if order == "sorted":
        return s
    if order == "reversed":
        return s[::-1].copy()
    if order == "nearly":
        k = max(1, n // 50)
        i = rng.integers(0, n, k); j = rng.integers(0, n, k)
        s[i], s[j] = s[j], s[i].copy()
        return s
    if order == "organ":
        return np.concatenate([s[::2], s[1::2][::-1]])
    if order == "saw":
        k = int(rng.integers(2, 20))
        return np.concatenate([s[i::k] for i in range(k)])
    if order == "tail":     # sorted with a disordered tail
        k = min(n, int(rng.integers(1, 200)))
        s = s.copy(); s[-k:] = rng.permutation(s[-k:]); s[rng.integers(0, n)] = s[-1]
        return s
    if order == "killer":
        m = n if n <= 3000 else min(8192, n // 8)
        r = np.array(killer(m, small=int(rng.choice([3, 16, 20, 30]))))
        if seed % 3 == 2: r = m - 1 - r
        if m == n:
            return s[r]
        w = n // m * m
        return np.concatenate([s[:w].reshape(m, -1)[r].T.ravel(), s[w:]])
    if order == "pieces":   # every 1/8 (1/4, 1/2) sorted; pieces ordered or not among themselves
        k = int(rng.choice([2, 4, 8, 16]))
        b = np.linspace(0, n, k + 1).astype(int)
        if rng.random() < 0.5:       # already ordered between some neighbours
            p = np.concatenate([s[b[i]:b[i + 1]] for i in rng.permutation(k)])
        else:
            p = rng.permutation(a)
        for i in range(k):
            q = p[b[i]:b[i + 1]]
            q.sort()
        for _ in range(int(rng.integers(0, 4))):
            i = int(rng.choice(b[1:-1])) + int(rng.integers(-2, 2)); j = int(rng.integers(0, n))
            p[i], p[j] = p[j], p[i].copy()
        return p
    raise ValueError(order)

# ---------------------------------------------------------------- layouts
def layout_of(shape, itemsize, order, steps, pad):
    """strides, offset, size for an array of `shape`.  order: axes from outermost to innermost in memory,
    steps[i]: multiplier of the stride of axis i (0 broadcasts, negative reverses), pad: extra bytes per element"""
    nd = len(shape)
    strides = [0] * nd
    cur = itemsize + pad
    for ax in reversed(order):
        s = steps[ax]
        if s == 0:
            strides[ax] = 0
            continue
        strides[ax] = cur * s
        cur = abs(cur * s) * max(shape[ax], 1)
    lo = hi = 0
    for ax in range(nd):
        ext = strides[ax] * max(shape[ax] - 1, 0)
        if ext < 0:
            lo += ext
        else:
            hi += ext
    if 0 in shape:
        lo = hi = 0
    return strides, -lo, (hi - lo) + itemsize

@st.composite
def layouts(draw, nd, broadcast=True, contiguous_bias=3, odd=True):
    """descriptor of a memory layout for nd dimensions"""
    kind = draw(st.sampled_from(["C"] * contiguous_bias + ["step", "rev", "misal", "pad", "bcast", "gen"]))
    order = list(range(nd)); steps = [1] * nd; pad = 0; align = 0
    align = draw(st.sampled_from([0, 0, 8, 16, 24, 32, 40, 48, 56, 4, 12, 2, 20]))
    if kind == "C":
        pass
    elif kind == "misal":
        align = draw(st.integers(0, 63)) if odd else align
    elif nd == 0:
        pass
    elif kind == "step":
        steps[draw(st.integers(0, nd - 1))] = draw(st.sampled_from([2, 3, 4, 5, 8]))
    elif kind == "rev":
        steps[draw(st.integers(0, nd - 1))] = draw(st.sampled_from([-1, -1, -2, -3]))
    elif kind == "pad":
        pad = draw(st.sampled_from([1, 2, 3, 4, 5, 8, 12] if odd else [4, 8, 16]))
    elif kind == "bcast" and broadcast:
        steps[draw(st.integers(0, nd - 1))] = 0
    elif kind == "gen":
        order = draw(st.permutations(order))
        steps = [draw(st.sampled_from([1, 1, 2, -1, 3] + ([0] if broadcast else []))) for _ in range(nd)]
        pad = draw(st.sampled_from([0, 0, 0, 8, 3] if odd else [0, 0, 8]))
    return {"o": order, "s": steps, "p": pad, "al": align}

class Case:
    """builder for vexec cases"""
    def __init__(self):
        self.bufs, self.arrs, self.steps = [], [], []
        self.views = []
    def place(self, vals, lay, dtype=None):
        """vals: ndarray of the logical content (already of the wanted dtype and shape); returns array index"""
        dt = np.dtype(dtype or vals.dtype)
        shape = vals.shape
        strides, off, size = layout_of(shape, dt.itemsize, lay["o"], lay["s"], lay["p"])
        raw = np.frombuffer(np.random.default_rng([size, 5]).bytes(size + 0), np.uint8).copy() if size < 100000 else np.full(size, 0xC3, np.uint8)
        v = np.ndarray(shape, dt, buffer=raw.data, offset=off, strides=strides)
        if v.size:
            v[...] = vals
            canon(v, raw, off, tuple(strides))
        self.bufs.append({"size": size, "align": lay["al"], "data": raw.tobytes()})
        self.arrs.append((len(self.bufs) - 1, vexec.descr_of(dt), tuple(shape), tuple(strides), off))
        self.views.append(v.copy())
        return len(self.arrs) - 1
    def place_raw(self, vals, lay):
        """like place, for record dtypes: copies the bytes of every element, padding included"""
        dt = vals.dtype
        shape = vals.shape
        strides, off, size = layout_of(shape, dt.itemsize, lay["o"], lay["s"], lay["p"])
        raw = np.full(size, 0xC3, np.uint8)
        if vals.size and dt.itemsize:
            u = np.ndarray(shape + (dt.itemsize,), np.uint8, buffer=raw.data, offset=off, strides=tuple(strides) + (1,))
            u[...] = np.frombuffer(vals.tobytes(), np.uint8).reshape(shape + (dt.itemsize,))
            if pads(dt):
                u[..., pads(dt)] = 0
        self.bufs.append({"size": size, "align": lay["al"], "data": raw.tobytes()})
        self.arrs.append((len(self.bufs) - 1, dt, tuple(shape), tuple(strides), off))
        self.views.append(None)
        return len(self.arrs) - 1
    def alias(self, arr, shape, strides, off, dtype=None):
        b, d = self.arrs[arr][:2]
        self.arrs.append((b, dtype or d, tuple(shape), tuple(strides), off))
        raw = self.bufs[b]["data"]
        if 0 in shape:
            strides, off = [0] * len(strides), 0
            self.arrs[-1] = self.arrs[-1][:3] + (tuple(strides), off)
        self.views.append(np.ndarray(tuple(shape), np.dtype(dtype or d), buffer=raw, offset=off, strides=tuple(strides)).copy())
        return len(self.arrs) - 1
    def step(self, func, *args, **kw):
        self.steps.append((func, list(args), kw))
        return len(self.steps) - 1
    def case(self):
        return {"bufs": self.bufs, "arrs": self.arrs, "steps": self.steps}
