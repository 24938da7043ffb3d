"""C07: sort returns/leaves exactly the sorted array."""
import numpy as np
from hypothesis import strategies as st
import vgen, vcmp, vsort
from vrun import Part, Failure

RULE = "a case counts as non-trivial when the sorted array has at least 17 elements along an axis (beyond the insertion sort of one run) or a non-contiguous layout; distinct by the hash of its descriptor"
ASSUMPTIONS = ["the oracle is the same numpy version without pnumpy; the order of 0.0 and -0.0 and of different NaNs among themselves is unspecified"]

def info(d):
    return "%s %s kind=%s axis=%s shape=%s " % (d["op"], d["dt"], d.get("kind"), d.get("axis"), d["shape"])

class Sort(Part):
    name = "sort"
    examples = {"quick": 14000, "thorough": 120000}
    shards = {"quick": 6, "thorough": 8}
    ops = [".sort", ".sort", "np.sort", "pn.sort"]
    kw = {}
    def strategy(self, tier):
        return vsort.sort_desc(self.ops, **self.kw)
    def nontrivial(self, d):
        return max(d["shape"]) >= 17 or (min(d["shape"]) > 1 and d["lay"]["s"] != [1] * len(d["shape"]))
    def execute(self, d, ctx):
        c = vgen.Case()
        k = vsort.place(c, d, d["shape"], d["lay"])
        kw = {"axis": d["axis"]}
        if d["kind"]:
            kw["kind"] = d["kind"]
        for s in d.get("pre", []):
            c.step("@only" + s[0], *s[1:])
        s = c.step(d["op"], ("@A", k), **kw)
        for p in d.get("post", []):
            c.step("@only" + p[0], *p[1:])
        case = c.case()
        got = ctx.run(case)
        want = ctx.ref(dict(case, steps=[(a.replace("pn.", "np."), b, cc) for a, b, cc in case["steps"]]))
        r = vcmp.diff_step(got["steps"][s], want["steps"][s], signed_zero=False)
        if r:
            return [Failure("%s %s %s" % (d["op"], d["dt"], r.kind), info(d) + r.msg)]
        if d["op"] == ".sort":
            g, w = vcmp.written_elements(got, want, case, k)
            m = vcmp.mismatch_mask(g, w, False)
            if m.any():
                j = tuple(np.argwhere(m)[0])
                return [Failure("%s %s value" % (d["op"], d["dt"]), info(d) + "%d elements differ, first at %s: %r, expected %r" % (m.sum(), j, g[j], w[j]))]
        m = vcmp.diff_mem(got, want, case, [k] if d["op"] == ".sort" else [])
        return [Failure("%s %s memory" % (d["op"], d["dt"]), info(d) + m.msg)] if m else []

class Big(Sort):
    """threaded merge sorts: lengths around and far above the threshold, presorted pieces"""
    name = "parallel"
    examples = {"quick": 1800, "thorough": 15000}
    shards = {"quick": 4, "thorough": 8}
    kw = dict(dtypes=["?"] + vgen.INTS + ["f2", "f4", "f8", "S1", "S3", "S8", "U1", "U3"], big=8, mid=0, small=0)
    def strategy(self, tier):
        @st.composite
        def s(draw):
            d = draw(vsort.sort_desc(self.ops, **self.kw))
            d["shape"] = [draw(vsort.biglen(d["dt"]))]
            d["lay"] = draw(vgen.layouts(1, broadcast=False))
            d["axis"] = -1
            if np.dtype(d["dt"]).kind not in "SU":
                d["ord"] = draw(st.sampled_from(vsort.ORDERS + ["saw", "tail", "pieces", "pieces", "pieces"]))
            return d
        return s()
class Direct(Part):
    """the sort function of the extension module itself: any kind and stride, threaded"""
    name = "direct"
    examples = {"quick": 1500, "thorough": 15000}
    shards = {"quick": 4, "thorough": 8}
    def strategy(self, tier):
        @st.composite
        def s(draw):
            d = draw(vsort.sort_desc(["pn._pnumpy.sort"], dtypes=["?"] + vgen.INTS + ["f4", "f8", "S1", "S3", "S8", "U1", "U3"]))
            d["dt"] = np.dtype(d["dt"]).newbyteorder("=").str
            d["shape"] = [draw(vsort.biglen(d["dt"])) if draw(st.booleans()) else draw(vgen.lengths(1, 2, 6))]
            d["lay"] = draw(vgen.layouts(1, broadcast=False))
            d["lay"]["al"] = 0
            return d
        return s()
    def nontrivial(self, d):
        return d["shape"][0] >= 17
    def execute(self, d, ctx):
        c = vgen.Case()
        k = vsort.place(c, d, d["shape"], d["lay"])
        for s in d.get("pre", []):
            c.step("@only" + s[0], *s[1:])
        s = c.step(d["op"], ("@A", k), **({"kind": d["kind"]} if d["kind"] else {}))
        case = c.case()
        got = ctx.run(case)
        want = ctx.ref(dict(case, steps=[("np.sort", b, {}) if a == d["op"] else (a, b, cc) for a, b, cc in case["steps"]]))
        r = vcmp.diff_step(got["steps"][s], want["steps"][s], signed_zero=False)
        if r:
            return [Failure("%s %s %s" % (d["op"], d["dt"], r.kind), info(d) + r.msg)]
        m = vcmp.diff_mem(got, want, case, [])
        return [Failure("%s %s memory" % (d["op"], d["dt"]), info(d) + m.msg)] if m else []

PARTS = [Sort(), Big(), Direct()]
