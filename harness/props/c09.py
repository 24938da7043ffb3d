"""C09: argmin/argmax/searchsorted, the pnumpy wrappers and the numpy functions that build on the hooked sorts."""
import numpy as np
from hypothesis import strategies as st
import vgen, vcmp, vsort, vexec
from vrun import Part, Failure

RULE = "a case counts as non-trivial when the array has at least 8 elements; distinct by the hash of its descriptor"
ASSUMPTIONS = ["the oracle is the same numpy version without pnumpy (for pn.<name>: np.<name>)"]
DTS = vsort.SORTABLE + ["f2", "f4", "f8"]

class ArgExtreme(Part):
    name = "argextreme"
    examples = {"quick": 9000, "thorough": 80000}
    shards = {"quick": 3, "thorough": 8}
    def strategy(self, tier):
        @st.composite
        def s(draw):
            d = draw(vsort.key(DTS))
            d["op"] = draw(st.sampled_from([".argmax", ".argmin", "np.argmax", "np.argmin", "pn.argmax", "pn.argmin", "np.nanargmax", "np.nanargmin"]))
            if d["op"][3:6] == "nan":
                d["dt"] = draw(st.sampled_from(["f4", "f8", "i4", "u1"]))
                d["cls"] = draw(st.sampled_from(vsort.classes(d["dt"])))
            nd = draw(st.sampled_from([1, 1, 1, 2, 3]))
            small = np.dtype(d["dt"]).kind in "SU"
            if nd == 1:
                d["shape"] = [draw(vgen.lengths(0 if small else 2, 2, 5))]
            elif nd == 2:
                d["shape"] = [draw(vgen.lengths(0, 1, 6)), draw(st.integers(0 if draw(st.integers(0, 9)) == 0 else 1, 8))]
                if draw(st.booleans()):
                    d["shape"] = d["shape"][::-1]
            else:
                d["shape"] = [draw(st.integers(1, 4)), draw(st.integers(1, 12)), draw(st.integers(1, 60))]
            d["lay"] = draw(vgen.layouts(nd))
            d["axis"] = draw(st.sampled_from([None, -1] + list(range(nd))))
            d["needle"] = draw(st.sampled_from([None, None, "one", "two", "end", "nan"]))
            d["out"] = draw(st.integers(0, 9)) == 0
            return d
        return s()
    def nontrivial(self, d):
        return int(np.prod(d["shape"])) >= 8
    def values(self, d):
        n = int(np.prod(d["shape"]))
        v = vsort.vals(d["dt"], n, d["cls"], d["ord"], d["seed"]).copy()
        rng = np.random.default_rng([d["seed"], n, 5])
        k = v.dtype.kind
        if d["needle"] and n and k in "iufb":
            base = v.dtype.type(1)
            hi = d["op"].endswith("max")
            v[:] = base if hi or k == "b" and hi else 1
            if k == "b" and hi:
                v[:] = False
            x = (1 if hi else 0) if k == "b" else (2 if hi else 0)
            at = rng.integers(0, n, {"one": 1, "two": 2, "end": 1, "nan": 1}[d["needle"]])
            if d["needle"] == "end":
                at = n - 1 - at % min(n, 40)
            v[at] = x
            if d["needle"] == "nan" and k == "f" and n > 1:
                v[rng.integers(0, n, 2)] = np.nan
        return v.reshape(d["shape"])
    def execute(self, d, ctx):
        c = vgen.Case()
        k = c.place(self.values(d), d["lay"])
        kw = {"axis": d["axis"]}
        written = []
        if d["out"] and d["op"][0] != "." and "nan" not in d["op"]:
            shp = list(d["shape"])
            if d["axis"] is None:
                shp = []
            else:
                del shp[d["axis"]]
            o = c.place(np.full(shp, -9, "i8"), {"o": list(range(len(shp))), "s": [1] * len(shp), "p": 0, "al": 0})
            kw["out"] = ("@A", o)
            written = [o]
        s = c.step(d["op"], ("@A", k), **kw)
        case = c.case()
        got = ctx.run(case)
        want = ctx.ref(dict(case, steps=[(a.replace("pn.", "np."), b, cc) for a, b, cc in case["steps"]]))
        r = vcmp.diff_step(got["steps"][s], want["steps"][s])
        inf = "%s %s shape=%s axis=%s " % (d["op"], d["dt"], d["shape"], d["axis"])
        sig = "%s %s " % (d["op"], d["dt"])
        if r:
            return [Failure(sig + r.kind, inf + r.msg)]
        m = vcmp.diff_mem(got, want, case, written)
        return [Failure(sig + "memory", inf + m.msg)] if m else []

class Search(Part):
    name = "searchsorted"
    examples = {"quick": 6000, "thorough": 50000}
    shards = {"quick": 2, "thorough": 6}
    def strategy(self, tier):
        @st.composite
        def s(draw):
            d = draw(vsort.key(DTS))
            d["op"] = draw(st.sampled_from([".searchsorted", "np.searchsorted", "pn.searchsorted"]))
            d["n"] = draw(vgen.lengths(0 if np.dtype(d["dt"]).kind in "SU" else 1, 2, 6))
            d["m"] = draw(vgen.lengths(0, 1, 6))
            d["side"] = draw(st.sampled_from(["left", "right"]))
            d["sorter"] = draw(st.booleans())
            d["lay"], d["lay2"] = draw(vgen.layouts(1)), draw(vgen.layouts(1))
            d["dt2"] = d["dt"] if draw(st.integers(0, 5)) or np.dtype(d["dt"]).kind not in "iuf" else draw(st.sampled_from(vgen.HOOKED))
            return d
        return s()
    def nontrivial(self, d):
        return d["n"] >= 8 and d["m"] > 0
    def execute(self, d, ctx):
        c = vgen.Case()
        v = vsort.vals(d["dt"], d["n"], d["cls"], "asis" if d["sorter"] else "sorted", d["seed"])
        lay = dict(d["lay"], s=[x or 1 for x in d["lay"]["s"]])
        k = c.place(v, lay)
        cls2 = d["cls"] if d["dt2"] == d["dt"] else vsort.classes(d["dt2"])[0]
        q = vsort.vals(d["dt2"], d["m"], cls2, "asis", d["seed"] + (d["m"] % 2))
        k2 = c.place(q, d["lay2"])
        kw = {"side": d["side"]}
        if d["sorter"]:
            so = np.argsort(v, kind="stable")
            kw["sorter"] = ("@V", so.tobytes(), "i8", so.shape)
        s = c.step(d["op"], ("@A", k), ("@A", k2), **kw)
        case = c.case()
        got = ctx.run(case)
        want = ctx.ref(dict(case, steps=[(a.replace("pn.", "np."), b, cc) for a, b, cc in case["steps"]]))
        r = vcmp.diff_step(got["steps"][s], want["steps"][s])
        inf = "%s %s/%s n=%d m=%d %s " % (d["op"], d["dt"], d["dt2"], d["n"], d["m"], d["side"])
        sig = "%s %s " % (d["op"], d["dt"])
        if r:
            return [Failure(sig + r.kind, inf + r.msg)]
        m = vcmp.diff_mem(got, want, case, [])
        return [Failure(sig + "memory", inf + m.msg)] if m else []

class Derived(Part):
    """numpy functions that call the hooked sort/argsort/ufunc loops internally"""
    name = "derived"
    examples = {"quick": 8000, "thorough": 70000}
    shards = {"quick": 3, "thorough": 8}
    OPS = ["unique", "unique_all", "median", "percentile", "partition", "isin", "union1d", "setdiff1d", "intersect1d", "digitize", "histogram", "sort_complex",
           "count", "nonzero", "clip", "bincount", "where", "allclose", "argwhere", "lexi2"]
    def strategy(self, tier):
        @st.composite
        def s(draw):
            op = draw(st.sampled_from(self.OPS))
            dts = DTS
            if op in ("median", "percentile", "clip", "allclose", "histogram", "digitize"):
                dts = ["i1", "i4", "i8", "u2", "f4", "f8"]
            if op == "bincount":
                dts = ["i1", "u1", "i4", "i8"]
            d = draw(vsort.key(dts, swap=False))
            if op == "bincount" or op == "histogram":
                d["cls"] = "nonneg" if np.dtype(d["dt"]).kind in "iu" else "moderate"
            if op in ("median", "percentile") and np.dtype(d["dt"]).kind == "f":
                d["cls"] = draw(st.sampled_from(["ints", "onespecial", "normal"]))
            d.update(op=op, n=draw(vgen.lengths(0 if np.dtype(d["dt"]).kind in "SU" else 2, 2, 5)), m=draw(vgen.lengths(0, 1, 5)), lay=draw(vgen.layouts(1)))
            return d
        return s()
    def nontrivial(self, d):
        return d["n"] >= 8
    def execute(self, d, ctx):
        c = vgen.Case()
        v = vsort.vals(d["dt"], d["n"], d["cls"], d["ord"], d["seed"])
        k = c.place(v, d["lay"])
        w = vsort.vals(d["dt"], d["m"], d["cls"], "asis", d["seed"] + 1)
        k2 = c.place(w, {"o": [0], "s": [1], "p": 0, "al": 0})
        s = c.step("derived", d["op"], ("@A", k), ("@A", k2))
        case = c.case()
        got, want = ctx.both(case)
        tol = None
        if d["op"] in ("median", "percentile"):
            # mean of the middle values / interpolation: to rounding
            def tol(g, w):
                return np.isclose(g.astype("f8"), w.astype("f8"), rtol=1e-5 if g.dtype == np.float32 else 1e-12, atol=0)
        r = vcmp.diff_step(got["steps"][s], want["steps"][s], signed_zero=False, tol=tol)
        inf = "%s %s n=%d m=%d " % (d["op"], d["dt"], d["n"], d["m"])
        sig = "%s %s " % (d["op"], d["dt"])
        if r:
            return [Failure(sig + r.kind, inf + r.msg)]
        m = vcmp.diff_mem(got, want, case, [])
        return [Failure(sig + "memory", inf + m.msg)] if m else []

class Wrappers(Part):
    """pn.sort/argsort/argmin/argmax/lexsort/searchsorted accept what np's accept: lists, scalars, subclasses, structured arrays, bad arguments"""
    name = "wrappers"
    examples = {"quick": 4000, "thorough": 30000}
    shards = {"quick": 2, "thorough": 4}
    def strategy(self, tier):
        return st.fixed_dictionaries({
            "op": st.sampled_from(["sort", "argsort", "argmin", "argmax", "lexsort", "searchsorted"]),
            "form": st.sampled_from(["list", "nested", "scalar", "tuple", "matrix", "masked", "struct", "object", "empty", "subclass", "0d", "recarray", "F", "ragged", "str", "bytes", "none"]),
            "axis": st.sampled_from(["absent", "absent", None, -1, 0, 1, 5, -7]),
            "kind": st.sampled_from([None, None, "stable", "quicksort", "bogus"]),
            "order": st.sampled_from([None, None, None, "x", ["y", "x"], "nope"]),
            "n": st.integers(0, 40), "seed": vgen.seeds, "out": st.sampled_from([None, None, None, "ok", "bad"])})
    def nontrivial(self, d):
        return d["n"] >= 2
    def execute(self, d, ctx):
        case = {"bufs": [], "arrs": [], "steps": [("wrap_call", [d], {})]}
        got, want = ctx.both(case)
        r = vcmp.diff_step(got["steps"][0], want["steps"][0], signed_zero=False)
        inf = "pn.%s of %s axis=%s kind=%s order=%s n=%d " % (d["op"], d["form"], d["axis"], d["kind"], d["order"], d["n"])
        return [Failure("%s %s %s" % (d["op"], d["form"], r.kind), inf + r.msg)] if r else []

PARTS = [ArgExtreme(), Search(), Derived(), Wrappers()]
