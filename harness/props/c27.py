"""C27: operands that span more than 2**31 bytes, or have more than 2**31 elements, are treated like small ones."""
import json
import numpy as np
from hypothesis import strategies as st
import vclient, vcmp, vexec
from vrun import Part, Failure
from props.c13 import cfg_ops

RULE = "a case counts as non-trivial when an operand spans at least 2**31 bytes"
ASSUMPTIONS = ["strides: the oracle is the same numpy version without pnumpy on the same arrays; lengths: operands repeat a short pattern, so the result must repeat the result of the pattern (numpy's, element by element)",
               "floats are small integers, whose sums and products are exact"]
I = ["i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8"]
FL = ["f4", "f8"]
UN = {"negative": I[0:1] + I[2:3] + ["i4", "i8"] + FL, "absolute": ["i1", "i2", "i4", "i8"] + FL, "invert": I + ["?"], "sqrt": FL, "isnan": FL, "signbit": FL, "floor": FL, "sign": ["i1", "i4", "i8"] + FL, "logical_not": I + FL + ["?"], "rint": FL}
BI = ["add", "subtract", "multiply", "minimum", "maximum", "bitwise_and", "bitwise_or", "bitwise_xor", "equal", "less", "greater_equal", "not_equal"]

def vals(dt, n, seed):
    rng = np.random.default_rng([seed, n])
    if dt == "?":
        return rng.integers(0, 2, n).astype("?")
    if np.dtype(dt).kind == "f":
        return rng.integers(0, 9, n).astype(dt)
    return rng.integers(0, 100, n).astype(dt)

def run(ctx, case):
    """-> the outcome, or None when the machine has too little memory (the kernel ended the process)"""
    try:
        return ctx.run(case)
    except vclient.TargetDied as e:
        if "status -9" in str(e):
            return None
        raise

class Strides(Part):
    name = "strides"
    target = {"timeout": 400}
    examples = {"quick": 1500, "thorough": 20000}
    shards = {"quick": 4, "thorough": 4}
    def strategy(self, tier):
        @st.composite
        def s(draw):
            k = draw(st.sampled_from(["unary", "binary", "binary", "reduce", "reduce", "accumulate", "inplace", "sort", "argsort", "argmax", "take", "take", "lexsort", "rec"]))
            n = draw(st.sampled_from([2, 3, 5, 8, 9, 33, 40, 100, 1000, 20000, 65536 + 8]))
            dts, f = [draw(st.sampled_from(I + FL + ["?"]))] * 2, None
            if k == "unary":
                f = draw(st.sampled_from(sorted(UN))); dts = [draw(st.sampled_from(UN[f]))]
            elif k in ("binary", "inplace"):
                f = draw(st.sampled_from(BI)); dts = [draw(st.sampled_from(I + (FL if "bitwise" not in f else [])))] * 2
                if k == "inplace" and f in BI[8:]:
                    f = "add"
            elif k in ("reduce", "accumulate"):
                f = draw(st.sampled_from(["add", "minimum", "maximum", "bitwise_or", "logical_and"])); dts = [draw(st.sampled_from(I + (FL if "bitwise" not in f else [])))]
            elif k in ("sort", "argsort"):
                f = draw(st.sampled_from(["quicksort", "stable", "heapsort"] if k == "sort" else ["stable"])); dts = dts[:1]
            elif k == "argmax":
                f = draw(st.sampled_from(["argmax", "argmin"])); dts = dts[:1]
            elif k == "take":
                f = draw(st.sampled_from(["mask", "index"])); dts = [dts[0], "?" if f == "mask" else draw(st.sampled_from(["i1", "i4", "i8", "u4"]))]
            elif k == "lexsort":
                f = draw(st.sampled_from(["lexsort32", "lexsort64"])); dts = [d for d in dts if d != "?"] or ["i4"]
            else:
                f = "cols"; dts = ["rec"]
            def stride(dt):
                span = draw(st.sampled_from([2**31, 2**31, 2**32, 3 * 2**31, 2**33]))
                isz = 8
                m = draw(st.integers(0, 3))
                x = -(-span // max(n - 1, 1)) // isz * isz + isz * draw(st.sampled_from([1, 1, 2, 5])) if m else isz
                return x * draw(st.sampled_from([1, 1, -1]))
            return {"k": k, "f": f, "n": n, "dts": dts, "strides": [stride(t) for t in dts], "out": draw(st.sampled_from([0, 0, stride("")])) if k in ("unary", "binary") else 0, "seed": draw(st.integers(0, 2**20)), "pre": cfg_ops(draw, 0, 1)}
        return s()
    def nontrivial(self, d):
        return max(abs(s) for s in d["strides"] + [d["out"]]) * (d["n"] - 1) >= 2**31
    def execute(self, d, ctx):
        v = []
        for i, t in enumerate(d["dts"]):
            if t == "rec":
                x = np.zeros(d["n"], [("a", "i4"), ("b", "f8"), ("c", "i1")])
                for j, c in enumerate("abc"):
                    x[c] = vals(x.dtype[c], d["n"], d["seed"] + j)
                v.append(("@V", x.tobytes(), x.dtype, x.shape))
                continue
            x = vals(t, d["n"], d["seed"] + i)
            if d["k"] == "take" and i == 1 and t != "?":
                x = (x % min(d["n"], 100)).astype(t)
            v.append(("@V", x.tobytes(), vexec.descr_of(x.dtype), x.shape))
        case = {"bufs": [], "arrs": [], "steps": [("huge_strided", ({k: d[k] for k in ("k", "f", "strides", "out")},) + tuple(v), {})], "pre": d["pre"]}
        got = run(ctx, case)
        if got is None:
            return []
        want = ctx.ref({k: x for k, x in case.items() if k != "pre"})
        r = vcmp.diff_step(got["steps"][0], want["steps"][0], signed_zero=False)
        t = "%s %s %s " % (d["k"], d["f"], d["dts"][0])
        return [Failure(t + r.kind, t + "n=%d strides=%s: %s" % (d["n"], d["strides"], r.msg))] if r else []

class Lengths(Part):
    name = "lengths"
    target = {"timeout": 400}
    examples = {"quick": 54, "thorough": 1200}
    shards = {"quick": 2, "thorough": 2}
    def strategy(self, tier):
        @st.composite
        def s(draw):
            k = draw(st.sampled_from(["unary", "binary", "scalar", "inplace", "sum", "needle", "sort", "mask", "fancy", "arange", "rec", "lexsort32"]))
            dt, f = draw(st.sampled_from(["i1", "u1", "?"])), None
            if k == "unary":
                f = draw(st.sampled_from(["logical_not", "invert", "absolute"]))
            elif k in ("binary", "scalar", "inplace"):
                f = draw(st.sampled_from(["add", "subtract", "multiply", "minimum", "maximum", "bitwise_and", "bitwise_xor", "equal", "less", "greater_equal"]))
                dt = "u1" if dt == "?" else dt
                if k == "inplace" and f in ("equal", "less", "greater_equal"):
                    f = "add"
            elif k == "sort":
                f = draw(st.sampled_from(["quicksort", "stable"]))
            elif k in ("arange", "rec"):
                dt = draw(st.sampled_from(["i1", "u1"]))
            elif k == "lexsort32":
                dt = "u1"
            n = draw(st.sampled_from([2**31 + 2**20, 2**31])) + draw(st.sampled_from([-1, 0, 1, 5, 33, 16384, 70001]))
            if tier == "thorough" and k not in ("sort", "rec", "arange", "binary", "lexsort32") and draw(st.booleans()):
                n += 2**31
            d = {"k": k, "f": f, "dt": dt, "n": n, "p": draw(st.sampled_from([1, 2, 31, 251, 1021])), "seed": draw(st.integers(0, 2**20)), "cast": draw(st.booleans())}
            if k == "rec":
                d["f"] = 1 if tier == "quick" else draw(st.sampled_from([1, 2]))     # fields
            if k == "lexsort32":
                d["n"] = max(n, 2**31)
            if k == "needle":
                d["at"] = draw(st.sampled_from([0, n - 1, 2**31 - 1, n - 40, n // 2, n - 16384]))
            return d
        return s()
    def nontrivial(self, d):
        return True
    def execute(self, d, ctx):
        got = run(ctx, {"bufs": [], "arrs": [], "steps": [("huge_long", (d,), {})]})
        if got is None:
            return []
        r = got["steps"][0]
        t = "%s %s %s " % (d["k"], d["f"], d["dt"])
        if r[0] != "ok":
            return [] if r[1] == "MemoryError" else [Failure(t + "raised", t + "n=%d: %s" % (d["n"], r[1:]))]
        return [Failure(t + "value", t + "n=%d: %s" % (d["n"], r[1][1]))] if r[1][1] is not None else []
PARTS = [Strides(), Lengths()]
