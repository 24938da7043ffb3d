"""C23: numpy functions that pnumpy does not replace give the same with it."""
import json
import numpy as np
from hypothesis import strategies as st
from vrun import Part, Failure
import vclient, vcmp, vgen, vlib
from props.c13 import cfg_ops

RULE = "a recipe (some numpy calls) applied to generated arrays; non-trivial when these have 8 elements or more"
ASSUMPTIONS = ["results of recipes that depend on the order of rounding agree to 1e-9 of the largest value (1e-4 in single precision)"]
DTS = ["i1", "u1", "i2", "i4", "i8", "u4", "u8", "q", "f4", "f8", "f8", "?", "f2"]

def small(dt, n, seed):
    """small integers, some of them equal, whose sums and products are exact in any order"""
    rng = np.random.default_rng([seed, n, 3])
    dt = np.dtype(dt)
    lo, hi = {0: (-9, 20), 1: (0, 4), 2: (-60, 60)}[seed % 3]
    if dt.kind in "ub": lo = 0
    return rng.integers(lo, hi, n).astype(dt)

def close(g, w):
    with np.errstate(all="ignore"):
        if g.dtype.kind not in "fc":
            return np.zeros(g.shape, bool)
        single = g.dtype.char in "efF"
        fin = np.abs(w[np.isfinite(w)])
        return np.abs(g - w) <= (2e-3 if g.dtype.char == "e" else 1e-4 if single else 1e-9) * (1 + (fin.max() if fin.size else 0)) * (np.isfinite(g) & np.isfinite(w))

class Recipes(Part):
    name = "recipes"
    examples = {"quick": 10000, "thorough": 200000}
    shards = {"quick": 8, "thorough": 8}
    def strategy(self, tier):
        @st.composite
        def s(draw):
            nd = draw(st.sampled_from([1, 1, 2, 2, 3]))
            n = draw(vgen.lengths(1, 2, 6))
            if nd == 1: shape = [n]
            elif nd == 2: shape = draw(st.sampled_from([[n, 3], [3, n], [1, n], [17, 19]])) if n < 1000 else [7, n // 7]
            else: shape = [2, 3, n % 50]
            return {"f": draw(st.sampled_from(sorted(vlib.R))), "shape": shape, "dx": draw(st.sampled_from(DTS)), "dy": draw(st.sampled_from(DTS)),
                    "lx": draw(vgen.layouts(nd, broadcast=False)), "ly": draw(vgen.layouts(nd, broadcast=False)), "n": draw(vgen.lengths(0, 1, 6)), "dv": draw(st.sampled_from(DTS)), "lv": draw(vgen.layouts(1, broadcast=False)),
                    "m": draw(st.integers(0, 60)), "k": draw(st.integers(0, 11)), "seed": draw(vgen.seeds), "pre": cfg_ops(draw, 0, 1)}
        return s()
    def nontrivial(self, d):
        return int(np.prod(d["shape"])) >= 8
    def execute(self, d, ctx):
        c = vgen.Case()
        sh = d["shape"]
        x = c.place(small(d["dx"], int(np.prod(sh)), d["seed"]).reshape(sh), d["lx"])
        y = c.place(small(d["dy"], int(np.prod(sh)), d["seed"] + 1).reshape(sh), d["ly"])
        v = c.place(small(d["dv"], d["n"], d["seed"] + 2), d["lv"])
        i = np.random.default_rng([d["seed"], 9]).integers(0, max(1, d["n"]), d["m"] if d["n"] else 0).tolist()
        i = ("@V", np.array(i, "i8").tobytes(), "<i8", (len(i),))
        s = c.step("recipe", d["f"], ("@A", x), ("@A", y), ("@A", v), i, d["k"])
        case = c.case()
        try:
            want = ctx.run(dict(case), mode="plain")
        except (vclient.TargetDied, vclient.TargetHung):       # OpenBLAS and data that is not aligned
            return []
        got = ctx.run(dict(case, pre=d["pre"]))
        inf = "%s shape=%s %s,%s,%s n=%d k=%d under %s: " % (d["f"], sh, d["dx"], d["dy"], d["dv"], d["n"], d["k"], json.dumps(d["pre"]))
        r = vcmp.diff_step(got["steps"][s], want["steps"][s], signed_zero=False, tol=None if d["f"] in vlib.EXACT else close)
        if r:
            return [Failure("%s %s" % (d["f"], r.kind), inf + r.msg)]
        m = vcmp.diff_mem(got, want, case, [])
        return [Failure("%s memory" % d["f"], inf + m.msg)] if m else []

PARTS = [Recipes()]
