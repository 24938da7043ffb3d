"""sort / argsort / lexsort cases."""
import numpy as np
from hypothesis import strategies as st
import vexec, vgen, vcmp

SORTABLE = ["?"] + vgen.INTS + ["f2", "f4", "f8", "g"] + ["S1", "S3", "S5", "S8", "S13", "S17", "U1", "U3", "U6", "c8", "M8[s]", "m8[ns]"]
ORDERS = ["asis", "asis", "asis", "sorted", "reversed", "nearly", "organ", "saw", "tail", "killer"]
KINDS = [None, "quicksort", "mergesort", "heapsort", "stable"]

def classes(dt):
    k = np.dtype(dt).kind
    if k in "fc":
        return ["mixed", "normal", "special", "nonan", "ints", "const", "bits", "onespecial"]
    if k in "SU":
        return ["mixed", "small", "const", "dups"]
    return vgen.ICLS[:7] + ["dups"]

def vals(dt, n, cls, order, seed):
    dt = np.dtype(dt)
    base = dt.newbyteorder("=")
    if cls == "dups" and dt.kind in "iubmM":
        v = vgen.values("i8", n, "small", seed).astype(base)
    elif base.char == "g":
        v = vgen.values("f8", n, cls, seed).astype("g")
    elif base.char == "e" and cls == "bits":
        v = vgen.values("u2", n, "full", seed).view("e").copy()
    elif base.kind in "mM":
        v = vgen.values("i8", n, cls, seed).view(base)
    else:
        v = vgen.values(base, n, cls, seed)
    if order != "asis":
        v = vgen.ordered(v, order, seed)
    return v.astype(dt, copy=False)

@st.composite
def key(draw, dtypes, swap=True):
    dt = draw(st.sampled_from(dtypes))
    if swap and draw(st.integers(0, 14)) == 0 and np.dtype(dt).itemsize > 1 and dt not in "qQ":
        dt = np.dtype(dt).newbyteorder(">").str
    return {"dt": dt, "cls": draw(st.sampled_from(classes(dt))), "ord": draw(st.sampled_from(ORDERS)), "seed": draw(vgen.seeds)}

def biglen(dt):
    if np.dtype(dt).kind in "SU":
        return st.one_of(st.sampled_from([65536, 65537, 66000, 70001]), st.integers(60000, 80000))
    return st.one_of(st.sampled_from(vgen.BIG), st.integers(60000, 200000))

def maxlen(dt):
    return 3000 if np.dtype(dt).kind in "SU" else None

@st.composite
def sort_desc(draw, ops, dtypes=SORTABLE, big=2, mid=3, small=5):
    d = draw(key(dtypes))
    d["op"] = draw(st.sampled_from(ops))
    nd = draw(st.sampled_from([1] * 5 + [2, 3]))
    if np.dtype(d["dt"]).kind in "SU" and draw(st.integers(0, 3)):
        big_, mid_ = 0, mid
    else:
        big_, mid_ = big, mid
    if nd == 1:
        shape = [draw(vgen.lengths(big_, mid_, small))]
    elif nd == 2:
        shape = [draw(vgen.lengths(0, 1, 6)), draw(st.integers(1, 8))]
        if draw(st.booleans()):
            shape = shape[::-1]
    else:
        shape = [draw(st.integers(1, 4)), draw(st.integers(1, 12)), draw(st.integers(1, 60))]
    d["shape"] = shape
    d["lay"] = draw(vgen.layouts(nd, broadcast=d["op"] not in (".sort",)))
    d["axis"] = draw(st.sampled_from([-1, -1, -1] + list(range(nd)) + ([None] if d["op"] != ".sort" else [])))
    d["kind"] = draw(st.sampled_from(KINDS))
    return d

def place(c, d, shape, lay):
    n = int(np.prod(shape))
    return c.place(vals(d["dt"], n, d["cls"], d["ord"], d["seed"]).reshape(shape), lay)

def tkey(v):
    """values -> rank array: equal rank iff equivalent in numpy's sort order"""
    u = np.sort(v.ravel(), kind="stable")
    return u

def check_argsort(v, idx, axis, stable, refidx):
    """v: values; idx: returned indices; None or message"""
    if axis is None:
        v = v.ravel(); axis = 0
    if idx.shape != v.shape:
        return "index array has shape %s, expected %s" % (idx.shape, v.shape)
    n = v.shape[axis]
    if n == 0 or v.size == 0:
        return None
    I = np.moveaxis(idx, axis, -1).reshape(-1, n)
    V = np.moveaxis(v, axis, -1).reshape(-1, n)
    R = np.moveaxis(refidx, axis, -1).reshape(-1, n)
    if (I < 0).any() or (I >= n).any():
        b = I[(I < 0) | (I >= n)][0]
        return "index %d out of range (n=%d)" % (b, n)
    cnt = np.zeros(I.shape, "i4")
    np.add.at(cnt, (np.arange(len(I))[:, None], I), 1)
    if (cnt != 1).any():
        j = np.argwhere(cnt != 1)[0]
        return "not a permutation: index %d appears %d times" % (j[-1], cnt[tuple(j)])
    a = np.take_along_axis(V, I, -1); b = np.take_along_axis(V, R, -1)
    m = vcmp.mismatch_mask(a, b, signed_zero=False)
    if m.any():
        j = np.argwhere(m)[0]
        return "not sorted: position %s holds %r, expected %r" % (j.tolist(), a[tuple(j)], b[tuple(j)])
    if stable and (I != R).any():
        j = np.argwhere(I != R)[0]
        return "not stable: position %s holds index %d, expected %d" % (j.tolist(), I[tuple(j)], R[tuple(j)])
    return None
