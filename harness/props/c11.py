"""C11: arange (and what numpy builds on the same fill routine) equals plain numpy, element for element."""
import numpy as np
from hypothesis import strategies as st
import vgen, vcmp
from vrun import Part, Failure

RULE = "a case counts as non-trivial when the sequence has at least 3 elements (only from the third on does the fill routine compute anything); distinct by the hash of its descriptor"
ASSUMPTIONS = ["the oracle is the same numpy version without pnumpy; results are compared bit for bit (signed zeros included)"]
DT = ["i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8", "q", "Q", "f2", "f4", "f8", "g", "c8", "c16", "M8[s]", "M8[D]", "m8[ns]", None, ">i4", ">f8", ">f4"]
LEN = [0, 1, 2, 3, 4, 7, 8, 9, 100, 255, 256, 257, 1000, 16383, 16384, 16385, 32768, 65535, 65536, 65537, 81920, 98304 + 5, 131072, 200003]

class Arange(Part):
    name = "arange"
    examples = {"quick": 18000, "thorough": 150000}
    shards = {"quick": 6, "thorough": 8}
    def strategy(self, tier):
        @st.composite
        def s(draw):
            return {"dt": draw(st.sampled_from(DT)), "n": draw(st.one_of(st.sampled_from(LEN), st.integers(0, 400), st.sampled_from(LEN), st.integers(60000, 300000))),
                    "form": draw(st.sampled_from(["stop", "startstop", "step", "step", "step", "step"])),
                    "start": draw(st.one_of(st.integers(-200, 200), st.sampled_from([2**31 - 3, -2**31 + 1, 2**40, 2**53 + 1, -2**53, 2**63 - 5, -2**63, 2**24 + 1]))),
                    "fstart": draw(st.one_of(st.none(), st.none(), st.floats(-1e6, 1e6, allow_nan=False), st.sampled_from([0.1, -0.0, 1e16, 1e-300, 5e-324, 1e300, 0.7, 1 / 3]))),
                    "step": draw(st.one_of(st.integers(-5, 5), st.sampled_from([7, -100, 1000, 2**31, -2**33, 255, 256, 2**62]))),
                    "fstep": draw(st.one_of(st.none(), st.none(), st.floats(-1e3, 1e3, allow_nan=False), st.sampled_from([0.1, -0.1, 0.3, 1e-9, 1e-320, 1e10, 1 / 3]))),
                    "op": draw(st.sampled_from(["arange"] * 8 + ["linspace", "ogrid", "indices", "r_", "tile"]))}
        return s()
    def nontrivial(self, d):
        return d["n"] >= 3
    def execute(self, d, ctx):
        s = ("arange_op", [d], {})
        case = {"bufs": [], "arrs": [], "steps": [s]}
        got, want = ctx.both(case)
        r = vcmp.diff_step(got["steps"][0], want["steps"][0])
        t = "%s %s %s " % (d["op"], d["dt"], d["form"])
        return [Failure(t + r.kind, t + "n=%d: " % d["n"] + r.msg)] if r else []

class Fill(Part):
    """full, fill, zeros, ones, repeat, diag-like constructors: not replaced by pnumpy, but built on the same table of per-type functions"""
    name = "constructors"
    examples = {"quick": 3000, "thorough": 15000}
    shards = {"quick": 2, "thorough": 4}
    def strategy(self, tier):
        @st.composite
        def s(draw):
            return {"dt": draw(st.sampled_from(vgen.HOOKED + ["f2", "g", "c8", "S5", "U3", "M8[s]"])), "n": draw(vgen.lengths(1, 2, 6)), "seed": draw(vgen.seeds), "cls": "mixed",
                    "lay": draw(vgen.layouts(1, broadcast=False)), "op": draw(st.sampled_from(["full", "fill", "zeros", "ones", "astype", "nonzero", "copyto", "repeat", "eye", "putscalar", "argmaxbool"]))}
        return s()
    def nontrivial(self, d):
        return d["n"] >= 3
    def execute(self, d, ctx):
        c = vgen.Case()
        v = vgen.values(d["dt"], d["n"], d["cls"], d["seed"])
        a = c.place(v, d["lay"])
        k = c.step("fill_op", d["op"], ("@A", a), d["seed"])
        case = c.case()
        got, want = ctx.both(case)
        r = vcmp.diff_step(got["steps"][k], want["steps"][k])
        t = "%s %s " % (d["op"], d["dt"])
        if r:
            return [Failure(t + r.kind, t + "n=%d: " % d["n"] + r.msg)]
        m = vcmp.diff_mem(got, want, case, [])
        return [Failure(t + "memory", t + m.msg)] if m else []

PARTS = [Arange(), Fill()]
