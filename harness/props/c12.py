"""C12: recarray_to_colmajor returns, for every field, exactly the column."""
import numpy as np
from hypothesis import strategies as st
import vgen, vcmp, vrec, vexec
from vrun import Part, Failure

RULE = "a case is non-trivial when the record array has at least one record and at least one field"
ASSUMPTIONS = ["reference: a[name].copy() of the installed numpy"]

class Rec(Part):
    name = "columns"
    examples = {"quick": 3000, "thorough": 40000}
    shards = {"quick": 6, "thorough": 8}
    def strategy(self, tier):
        @st.composite
        def s(draw):
            d = {"rec": draw(vrec.rec_dtype()), "seed": draw(vgen.seeds), "par": draw(st.sampled_from([None, None, None, True, False]))}
            if draw(st.integers(0, 6)) == 0:
                d["shape"] = [draw(st.integers(1, 5)), draw(vgen.lengths(0, 0, 4))]
            else:
                d["shape"] = [draw(vgen.lengths(1, 5, 5))]
            d["lay"] = draw(vgen.layouts(len(d["shape"])))
            return d
        return s()
    def nontrivial(self, d):
        return min(d["shape"]) > 0
    def execute(self, d, ctx):
        dt = vrec.dtype(d["rec"])
        args = [] if d["par"] is None else [d["par"]]
        c = vgen.Case()
        n = int(np.prod(d["shape"]))
        if dt.hasobject:
            c.step("rec_obj", ("@D", dt), n)
            k = c.step("rec_pn", ("@R", 0), *args)
        else:
            if dt.itemsize * n > 40_000_000:
                n = 40_000_000 // dt.itemsize
                d = dict(d, shape=[n])
            raw = np.random.default_rng(d["seed"]).integers(0, 256, (n, dt.itemsize), dtype=np.uint8)
            clean(raw, dt, 0)
            v = np.ndarray((n,), dt, buffer=raw.tobytes()) if dt.itemsize else np.zeros(n, dt)
            a = c.place_raw(v.reshape(d["shape"]), d["lay"])
            k = c.step("rec_pn", ("@A", a), *args)
        case = c.case()
        got = ctx.run(case)
        want = ctx.ref(dict(case, steps=[("rec_ref" if s[0] == "rec_pn" else s[0], s[1], s[2]) for s in case["steps"]]))
        r = vcmp.diff_step(got["steps"][k], want["steps"][k])
        if r:
            return [Failure("columns " + r.kind, r.msg)]
        if want["steps"][k][0] != "ok":
            return [Failure("reference", str(want["steps"][k]))]
        m = vcmp.diff_mem(got, want, case)
        return [Failure("memory", m.msg)] if m else []

def clean(raw, dt, off):
    """booleans and unicode need valid content; raw: (n, itemsize) bytes"""
    for name in dt.names or ():
        s, o = dt.fields[name][:2]
        base = s.subdtype[0] if s.subdtype else s
        part = raw[:, off + o:off + o + s.itemsize]
        if base.kind == "b":
            part &= 1
        elif base.kind == "U":
            part[:, 1::4] &= 7
            part[:, 2::4] = 0
            part[:, 3::4] = 0
        elif base.names:
            clean(raw, base, off + o)

PARTS = [Rec()]
