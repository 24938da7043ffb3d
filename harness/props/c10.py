"""C10: boolean and fancy indexing, and pn.getitem."""
import numpy as np
from hypothesis import strategies as st
import vgen, vcmp, vsort, vrec, vexec
from vrun import Part, Failure

RULE = "a case counts as non-trivial when at least 8 items are looked up or 8 mask elements are read; distinct by the hash of its descriptor"
ASSUMPTIONS = ["a[mask], a[index], take, compress, putmask and assignment: the oracle is the same numpy version without pnumpy",
               "pn.getitem of one dimension: a[mask]; a[index] where an index out of [-n, n) gives the default (given, or the type's invalid value: NaN, minimum of a signed type, "
               "maximum of an unsigned type, False, NaT, empty string, zero bytes); other arguments may raise ValueError/TypeError"]

ITEMS = ["?"] + vgen.INTS + ["f2", "f4", "f8", "g", "c8", "c16", "S1", "S2", "S3", "S4", "S5", "S7", "S8", "S9", "S15", "S16", "S17", "S24", "S33", "S130", "S1030", "U1", "U2", "U3", "U4", "U5", "U40", "U300",
                            "M8[s]", "m8[ns]", "V3", "V16", "rec"]
RDT = np.dtype([("a", "i2"), ("b", "f8"), ("s", "S3")])

def item_vals(dt, n, cls, seed):
    if dt == "rec":
        return vgen.values(RDT, n, "mixed", seed)
    d = np.dtype(dt)
    if d.kind == "V":
        return np.frombuffer(np.random.default_rng([seed, n]).bytes(n * d.itemsize) or b"", d) if n else np.zeros(0, d)
    return vsort.vals(dt, n, cls, "asis", seed)

@st.composite
def index_desc(draw, n, ops=None):
    k = draw(st.sampled_from(["bool", "bool", "int", "int", "int"]))
    d = {"k": k, "seed": draw(vgen.seeds), "lay": draw(vgen.layouts(1))}
    if k == "bool":
        d["p"] = draw(st.sampled_from([0.0, 0.01, 0.1, 0.5, 0.9, 1.0, -1, -2]))
    else:
        d["dt"] = draw(st.sampled_from(["i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8", "q", "Q"]))
        d["m"] = draw(vgen.lengths(1, 2, 6))
        d["range"] = draw(st.sampled_from(["in", "in", "pos", "edge", "perm", "sorted"]))
    return d

def index_vals(d, n, oob=0):
    rng = np.random.default_rng([d["seed"], n, 1])
    if d["k"] == "bool":
        p = d["p"]
        if p == -1:      # long runs
            return (np.arange(n) // max(1, int(rng.integers(1, 5000)))) % 2 == 0
        if p == -2:      # one true at a random place
            v = np.zeros(n, bool)
            if n:
                v[n - 1 - int(rng.integers(0, min(n, 50))) if rng.random() < 0.5 else int(rng.integers(0, n))] = True
            return v
        return rng.random(n) < p
    dt = np.dtype(d["dt"])
    ii = np.iinfo(dt)
    m = d["m"]
    lo, hi = max(-n, ii.min), min(n - 1, ii.max)
    if n == 0 or hi < 0:
        if not oob:
            return np.zeros(0, dt)
        lo = hi = 0
    if d["range"] == "pos":
        lo = 0
    if d["range"] == "edge":
        v = rng.choice(np.array([lo, hi, 0], object), m).astype(dt)
    elif d["range"] == "perm":
        v = rng.permutation(np.arange(m) % (hi + 1)).astype(dt)
    else:
        v = rng.integers(lo, hi, m, endpoint=True).astype(dt)
        if d["range"] == "sorted":
            v.sort()
    if oob and m:
        bad = [x for x in (n, -n - 1, n + 1, n + 127, -n - 128, ii.max, ii.min, 2 * n, 128, 200, 255, 40000, 65535, 2**31, 2**32 - 1, 2**63) if ii.min <= x <= ii.max and not -n <= x < n]
        if bad:
            k = rng.integers(0, m, max(1, m // 5))
            v[k] = np.array([bad[int(q)] for q in rng.integers(0, len(bad), len(k))], object).astype(dt)
    return v

class Numpy(Part):
    name = "numpy_indexing"
    examples = {"quick": 4000, "thorough": 60000}
    shards = {"quick": 3, "thorough": 8}
    OPS = ["get", "get", "get", "take", "compress", "set", "setscalar", "iadd", "extract", "putmask", "np.where", "choose2", "rows", "mixed"]
    def strategy(self, tier):
        @st.composite
        def s(draw):
            dt = draw(st.sampled_from(ITEMS))
            n = draw(vgen.lengths(0 if dt[0] in "SUVr" else 1, 2, 6))
            cls = draw(st.sampled_from(vsort.classes(dt) if dt[0] not in "Vr" else ["mixed"]))
            return {"dt": dt, "n": n, "cls": cls, "seed": draw(vgen.seeds), "lay": draw(vgen.layouts(1, broadcast=False)), "ix": draw(index_desc(n)), "op": draw(st.sampled_from(self.OPS)),
                    "sub": draw(st.booleans())}
        return s()
    def nontrivial(self, d):
        return d["n"] >= 8
    def execute(self, d, ctx):
        c = vgen.Case()
        v = item_vals(d["dt"], d["n"], d["cls"], d["seed"])
        a = c.place(v, d["lay"], RDT if d["dt"] == "rec" else None)
        ix = index_vals(d["ix"], d["n"])
        i = c.place(ix, d["ix"]["lay"])
        op = d["op"]
        written = []
        if op in ("set", "setscalar", "iadd", "putmask"):
            written = [a]
        cnt = int(ix.sum()) if ix.dtype.kind == "b" else len(ix)
        w = item_vals(d["dt"], cnt if op in ("set",) else 1, d["cls"], d["seed"] + 1)
        if op == "iadd" and v.dtype.kind not in "iuf":
            op = "get"; written = []
        s = c.step("index_op", op, ("@A", a), ("@A", i), ("@V", vgen.canon(np.ascontiguousarray(w)).tobytes(), vexec.descr_of(w.dtype), w.shape))
        case = c.case()
        got, want = ctx.both(case)
        r = vcmp.diff_step(got["steps"][s], want["steps"][s])
        inf = "%s %s n=%d index %s " % (op, d["dt"], d["n"], ix.dtype)
        sig = "%s %s %s " % (op, d["dt"], ix.dtype)
        if r:
            return [Failure(sig + r.kind, inf + r.msg)]
        for k in written:
            g, x = vcmp.written_elements(got, want, case, k)
            m = vcmp.mismatch_mask(g, x)
            if m.any():
                return [Failure(sig + "value", inf + "element %d differs" % np.flatnonzero(m)[0])]
        m = vcmp.diff_mem(got, want, case, written)
        return [Failure(sig + "memory", inf + m.msg)] if m else []

class GetItem(Part):
    name = "pn_getitem"
    examples = {"quick": 6000, "thorough": 100000}
    shards = {"quick": 4, "thorough": 8}
    def strategy(self, tier):
        @st.composite
        def s(draw):
            dt = draw(st.sampled_from(ITEMS))
            n = draw(vgen.lengths(0 if dt[0] in "SUVr" else 1, 2, 6))
            cls = draw(st.sampled_from(vsort.classes(dt) if dt[0] not in "Vr" else ["mixed"]))
            d = {"dt": dt, "n": n, "cls": cls, "seed": draw(vgen.seeds), "lay": draw(vgen.layouts(1)), "ix": draw(index_desc(n)),
                 "oob": draw(st.booleans()), "def": draw(st.sampled_from([None, None, "none", "int", "float", "str", "bytes", "np", "long", "bool", "whole", "big", "nan", "wide"])),
                 "shape": draw(st.sampled_from([None] * 8 + ["2d", "2dF", "0d", "swap", "len", "obj"]))}
            return d
        return s()
    def nontrivial(self, d):
        return d["n"] >= 8
    def execute(self, d, ctx):
        c = vgen.Case()
        v = item_vals(d["dt"], d["n"], d["cls"], d["seed"])
        ix = index_vals(d["ix"], d["n"], oob=d["oob"])
        loose = False
        lay, ilay = d["lay"], d["ix"]["lay"]
        if d["shape"] == "2d" and d["n"] % 2 == 0 and d["n"]:
            v = v.reshape(2, -1)
            lay = {"o": [0, 1], "s": [1, 1], "p": 0, "al": lay["al"]}
            if ix.dtype.kind == "b":
                ix = ix.reshape(2, -1); ilay = {"o": [0, 1], "s": [1, 1], "p": 0, "al": ilay["al"]}
            loose = "flat"
        elif d["shape"] == "2dF" and d["n"] % 2 == 0 and d["n"]:
            v = v.reshape(2, -1); lay = {"o": [1, 0], "s": lay["s"] * 2, "p": lay["p"], "al": lay["al"]}
            if ix.dtype.kind == "b":
                ix = ix.reshape(2, -1); ilay = {"o": [1, 0], "s": [1, 1], "p": 0, "al": ilay["al"]}
            loose = "any"
        elif d["shape"] == "0d" and d["n"]:
            v = v[:1].reshape(()); lay = {"o": [], "s": [], "p": 0, "al": lay["al"]}
            loose = "any"
        elif d["shape"] == "swap":
            if v.dtype.itemsize > 1 and v.dtype.kind in "iuf" and v.dtype.char not in "qQ":
                v = v.astype(v.dtype.newbyteorder())
            elif ix.dtype.kind != "b" and ix.dtype.char not in "qQ":
                ix = ix.astype(ix.dtype.newbyteorder())
            loose = "any"
        elif d["shape"] == "len" and ix.dtype.kind == "b":
            ix = np.concatenate([ix, ix[:1], [True]])
        elif d["shape"] == "obj":
            case = {"bufs": [], "arrs": [], "steps": [("getitem_obj", [d["n"] % 3000, ("@V", ix.tobytes(), vexec.descr_of(ix.dtype), ix.shape)], {})]}
            got = ctx.run(case)
            g = got["steps"][0]
            if g[0] == "ok" and g[1][1] is not True:
                return [Failure("getitem objects", "getitem of objects: %s" % (g[1],))]
            if g[0] == "exc" and g[1] not in ("ValueError", "TypeError"):
                return [Failure("getitem objects", "getitem of objects: %s" % (g[:3],))]
            return []
        a = c.place(v, lay, RDT if d["dt"] == "rec" else None)
        i = c.place(ix, ilay)
        args = []
        k = v.dtype.kind
        de = d["def"]
        num = k in "biufc"
        if ix.dtype.kind == "b" and de:
            de = None
        if de == "none":
            args = [None]
        elif de == "int" and num:
            args = [7 if k != "b" else 1]
        elif de == "float" and num and k in "fc":
            args = [-2.5]
        elif de == "bool" and num:
            args = [bool(d["seed"] % 2)]
        elif de == "whole" and num:          # a float without fraction
            args = [float(1 if k == "b" else 100 if k == "u" else -100)]
        elif de == "big" and k in "iu":      # the largest and the smallest
            args = [int((np.iinfo(v.dtype).max, np.iinfo(v.dtype).min)[d["seed"] % 2])]
        elif de == "nan" and k in "fc":
            args = [(float("nan"), float("inf"), -0.0)[d["seed"] % 3]]
        elif de == "wide" and num:           # a numpy scalar of another type
            q = np.array([1], ["i8", "u1", "f8", "f4", "?"][d["seed"] % 5])
            args = [("@S", q.tobytes(), vexec.descr_of(q.dtype))]
        elif de == "np" and k in "mM":
            q = np.array([86400 * 11], v.dtype.str[1:3] + ("[s]" if d["seed"] % 2 else "[h]"))
            args = [("@S", q.tobytes(), vexec.descr_of(q.dtype))]
        elif de == "np" and num:
            q = np.array([3], v.dtype)
            args = [("@S", q.tobytes(), vexec.descr_of(v.dtype))]
        elif de == "str" and k == "U":
            args = ["d\u0142x"]
        elif de == "bytes" and k == "S":
            args = [b"dfl"]
        elif de == "long" and k in "SU":
            args = [b"xyz" * 100 if k == "S" else "xyz" * 100]
        s = c.step("pn.getitem", ("@A", a), ("@A", i), *args)
        case = c.case()
        got = ctx.run(case)
        want = ctx.ref(dict(case, steps=[("getitem_model", [("@A", a), ("@A", i)] + args, {})]))
        inf = "getitem %s n=%d index %s %s " % (d["dt"], d["n"], ix.dtype, d["shape"] or "")
        sig = "getitem %s %s %s " % (d["dt"], ix.dtype, d["shape"])
        g, w = got["steps"][s], want["steps"][s]
        if loose and g[0] == "exc" and g[1] == "ValueError":
            g = w
        if loose == "any" and g[0] == "ok":
            # rejected, or the flattened lookup
            x, y = vcmp.unpack(g[1]), vcmp.unpack(w[1])
            if x is None or x.shape != y.shape or x.dtype.newbyteorder('=') != y.dtype.newbyteorder('=') or vcmp.mismatch_mask(x.astype(y.dtype), y).any():
                return [Failure(sig + "value", inf + "differs from the flattened lookup")]
            g = w
        r = vcmp.diff_step(g, w)
        if r:
            return [Failure(sig + r.kind, inf + r.msg)]
        m = vcmp.diff_mem(got, want, case, [])
        return [Failure(sig + "memory", inf + m.msg)] if m else []

PARTS = [Numpy(), GetItem()]
