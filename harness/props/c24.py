"""C24: with the optional hook of ndarray.__getitem__ installed, indexing gives what it gives without it."""
import json
import numpy as np
from hypothesis import strategies as st
from vrun import Part, Failure
import vclient, vcmp, vgen, vsort, vunder
from props import c10
from props.c13 import cfg_ops

RULE = "an array of at least 8 items is indexed (or the inner case is non-trivial); distinct by the hash of the descriptor"
ASSUMPTIONS = ["the hook is reached through pnumpy._pnumpy.hook_enable(); the oracle is the same numpy without pnumpy"]
HOOK = [["hook"]]

class Inner(vunder.Under):
    """cases of C10 and C23 with the hook installed"""
    name = "inner"
    examples = {"quick": 5000, "thorough": 80000}
    shards = {"quick": 5, "thorough": 8}
    MENU = [("c10", "numpy_indexing"), ("c10", "numpy_indexing"), ("c23", "recipes"), ("c23", "recipes"), ("c09", "derived")]
    def strategy(self, tier):
        def have(m, n):
            try: return vunder.inner_part(m, n)
            except KeyError: return None
        menu = [(m, n) for m, n in self.MENU if have(m, n)]
        @st.composite
        def s(draw):
            m, n = draw(st.sampled_from(menu))
            return {"cfg": cfg_ops(draw, 0, 2), "inner": [m, n, draw(vunder.inner_part(m, n).strategy(tier))]}
        return s()
    def edit(self, cfg):
        return lambda case: dict(case, pre=cfg + list(case.get("pre") or []) + HOOK)
    def execute(self, d, ctx):
        # the reference of a C23 recipe runs through ctx.run(mode="plain"): no hook there
        m, n, x = d["inner"]
        edit = self.edit(d["cfg"])
        class P(vunder.Proxy):
            def run(s, case, **kw):
                return s.ctx.run(case if kw.get("mode") == "plain" else edit(case), **kw)
        fails = vunder.run_inner(m, n, x, P(ctx), ctx)
        return [Failure("%s.%s/%s" % (m, n, f.sig), "with the hook, under %s: %s" % (json.dumps(d["cfg"])[:300], f.msg), f.finding) for f in fails]

DTS = c10.ITEMS + ["O"] * 8 + ["recO"] * 3
KINDS = ["plain"] * 4 + ["matrix", "ma", "sub", "frozen", "memmap", "newsub", "newsub"]
SHAPES = ["same"] * 5 + ["same_other", "T", "flat", "longer", "shorter", "first", "0d", "empty", "one"]
INDEX = ["asis"] * 6 + ["list", "tuple", "tuple1", "tuple_rest", "matrix", "sub", "ellipsis", "newaxis", "scalar", "slice", "object", "neg", "float"]

class Shapes(Part):
    name = "shapes"
    examples = {"quick": 6000, "thorough": 90000}
    shards = {"quick": 3, "thorough": 8}
    def strategy(self, tier):
        @st.composite
        def s(draw):
            nd = draw(st.sampled_from([0, 1, 1, 1, 2, 2, 3]))
            if nd == 1: shape = [draw(vgen.lengths(0, 1, 5))]
            elif nd == 2: shape = draw(st.sampled_from([[2, 3], [3, 2], [1, 9], [9, 1], [0, 3], [37, 41], [200, 100], [4, 4]]))
            else: shape = [2, 3, draw(st.integers(0, 9))] if nd else []
            return {"dt": draw(st.sampled_from(DTS)), "shape": shape, "lay": draw(vgen.layouts(nd)), "seed": draw(vgen.seeds), "kind": draw(st.sampled_from(KINDS)),
                    "mask": draw(st.sampled_from(SHAPES)), "mlay": draw(st.sampled_from(["C", "F", "step", "neg", "zero"])), "p": draw(st.sampled_from([0.0, 0.05, 0.5, 0.95, 1.0])),
                    "idt": draw(st.sampled_from(["?", "?", "?", "?", "i1", "i2", "i4", "i8", "u1", "u4", "u8", ">i4", "O", "m8[s]"])), "oob": draw(st.sampled_from([0, 0, 0, 1])),
                    "how": draw(st.sampled_from(INDEX)), "hooks": draw(st.sampled_from(["on"] * 6 + ["twice", "off", "never"])), "pre": cfg_ops(draw, 0, 2)}
        return s()
    def nontrivial(self, d):
        return int(np.prod(d["shape"])) >= 8
    def execute(self, d, ctx):
        c = vgen.Case()
        n = int(np.prod(d["shape"]))
        dt = d["dt"]
        base = "i8" if dt == "O" else "rec" if dt == "recO" else dt
        v = c10.item_vals(base, n, "mixed" if base == "rec" or base[0] == "V" else vsort.classes(base)[0], d["seed"])
        v = v.reshape(d["shape"])
        a = c.place(v, d["lay"], c10.RDT if dt in ("rec", "recO") else None)
        s = c.step("hooked_index", {k: d[k] for k in ("dt", "kind", "mask", "mlay", "p", "idt", "oob", "how", "seed")}, ("@A", a))
        case = c.case()
        try:
            want = ctx.run(dict(case), mode="plain")
        except (vclient.TargetDied, vclient.TargetHung):
            return []
        ops = {"on": HOOK, "twice": HOOK + HOOK, "off": HOOK + [["unhook"]], "never": []}[d["hooks"]]
        got = ctx.run(dict(case, pre=d["pre"] + ops))
        inf = "%s %s %s mask %s/%s index %s %s, hook %s: " % (dt, d["shape"], d["kind"], d["mask"], d["mlay"], d["idt"], d["how"], d["hooks"])
        sig = "%s %s %s " % ("objects" if "O" in dt else "items", d["kind"], "bool" if d["idt"] == "?" else "int")
        r = vcmp.diff_step(got["steps"][s], want["steps"][s])
        if r:
            return [Failure(sig + r.kind, inf + r.msg)]
        m = vcmp.diff_mem(got, want, case, [])
        return [Failure(sig + "memory", inf + m.msg)] if m else []

PARTS = [Inner(), Shapes()]
