"""C15: operations running in several Python threads at the same time do not disturb each other."""
import hashlib, json
import numpy as np
from hypothesis import strategies as st
from vrun import Part, Failure
import vunder, vgen
from props.c13 import cfg_ops

RULE = "a case is 2 to 6 generated cases of C01-C12, each repeated in its own Python thread at the same time; non-trivial when at least two of them are non-trivial in their own property"
ASSUMPTIONS = ["each distinct outcome of each thread is judged as in the inner property", "schedules are sampled: short switch intervals, and in one part random delays around the engine's atomic operations"]
MAXLIVE = 12

def small_enough(case):
    return sum(b["size"] for b in case["bufs"]) < 12_000_000

class Concurrent(Part):
    name = "threads"
    examples = {"quick": 400, "thorough": 12000}
    shards = {"quick": 4, "thorough": 8}
    seconds = {"quick": 0.25, "thorough": 0.6}
    toggles = False
    groups = None
    hot = 0
    bias = 3
    def config(self, draw, tier):
        c = {"switch": draw(st.sampled_from([1e-6, 1e-5, 1e-4, 5e-3])), "repeat": draw(st.sampled_from([3, 10, 40])), "seconds": self.seconds[tier], "pre": cfg_ops(draw, 0, 2)}
        if self.hot:
            c.update(hot=1, repeat=100000)
        if self.toggles:
            c["toggle"] = cfg_ops(draw, 2, 6)
        return c
    def strategy(self, tier):
        @st.composite
        def s(draw):
            n = draw(st.integers(2, 6))
            inner = [draw(vunder.inner_strategy(tier, self.groups, bias=self.bias)) for _ in range(n)]
            if draw(st.integers(0, 2)) == 0:
                inner = [inner[0]] * n
            return {"cfg": self.config(draw, tier), "inner": inner}
        return s()
    def nontrivial(self, d):
        return sum(bool(vunder.inner_part(m, n).nontrivial(x)) for m, n, x in d["inner"]) >= 2
    def kwargs(self, d):
        return dict(self.target)
    def execute(self, d, ctx):
        cases = []
        for m, n, x in d["inner"]:
            cap = []
            try:
                vunder.inner_part(m, n).execute(x, vunder.Proxy(ctx, capture=cap))
            except vunder.Stored:
                pass
            cases.append(cap[0] if cap and small_enough(cap[0]) else None)
        idx = [i for i, c in enumerate(cases) if c is not None]
        if len(idx) < 2:
            return []
        c = {k: v for k, v in d["cfg"].items() if k != "pre"}
        r = ctx.run(dict(c, multi=[{k: v for k, v in cases[i].items() if k not in ("pre", "post", "fork", "thread")} for i in idx], pre=d["cfg"]["pre"], post=[], bufs=[], arrs=[], steps=[]), **self.kwargs(d))
        if "errors" in r:
            return [Failure("thread error", str(r["errors"])[:500])]
        out = []
        for i, outs in zip(idx, r["multi"]):
            m, n, x = d["inner"][i]
            for o, cnt in outs[:MAXLIVE]:
                for f in vunder.run_inner(m, n, x, vunder.Proxy(ctx, outcomes=[o]), ctx):
                    out.append(Failure("%s.%s/%s" % (m, n, f.sig), "with %d threads at once (%s), %d time(s): %s" % (len(idx), json.dumps(d["cfg"])[:200], cnt, f.msg), f.finding))
                    break
        return out

class Hot(Concurrent):
    """the same operations over and over on blocks made once: threads spend most of their time inside the engine"""
    name = "hot"
    examples = {"quick": 500, "thorough": 15000}
    shards = {"quick": 6, "thorough": 8}
    seconds = {"quick": 0.2, "thorough": 0.5}
    hot = 1
    bias = 40

UN = ["np.absolute", "np.negative", "np.sqrt", "np.floor", "np.rint", "np.sign", "np.isnan", "np.square", "np.ceil"]
BI = ["np.add", "np.subtract", "np.multiply", "np.minimum", "np.maximum", "np.less", "np.greater_equal", "np.equal", "np.not_equal"]
RE = ["np.min", "np.max"]
OPS = UN + BI + RE + ["np.sum", "np.bitwise_xor.reduce", "np.sort", "np.argsort", "np.lexsort", "get", "mask", "np.arange", "np.logical_and", "cast", "out"]

class Storm(Part):
    """a few threaded operations on long arrays of plain values over and over; the expected results are numpy's, bit for bit"""
    name = "storm"
    examples = {"quick": 260, "thorough": 6000}
    shards = {"quick": 3, "thorough": 8}
    seconds = {"quick": 0.35, "thorough": 0.6}
    def strategy(self, tier):
        @st.composite
        def s(draw):
            few = draw(st.lists(st.sampled_from(OPS), min_size=1, max_size=4))
            one = st.tuples(st.sampled_from(few), st.sampled_from(["i1", "i2", "i4", "i8", "u1", "u4", "u8", "f4", "f8", "f8"]), st.integers(0, 2 ** 20)).map(list)
            th = draw(st.lists(st.tuples(st.sampled_from(vgen.BIG + [65536, 100000, 250001]), st.lists(one, min_size=1, max_size=4)).map(list), min_size=2, max_size=8))
            return {"switch": draw(st.sampled_from([1e-6, 1e-5, 1e-4])), "seconds": self.seconds[tier], "pre": cfg_ops(draw, 0, 1), "threads": th,
                    "sched": draw(st.sampled_from([None, None, None, "3000,0", "3000,20", "20000,20", "60000,5"]))}
        return s()
    def nontrivial(self, d):
        return True
    def execute(self, d, ctx):
        cases, refs = [], []
        for n, ops in d["threads"]:
            c, r = vgen.Case(), vgen.Case()
            lay = {"o": [0], "s": [1], "p": 0, "al": 0}
            for op, dt, seed in ops:
                rng = np.random.default_rng(seed)
                dt = np.dtype(dt)
                x, y = [(rng.integers(-100, 100, n) if dt.kind != "f" else rng.standard_normal(n).round(2)).astype(dt) for _ in range(2)]
                def P(v):
                    i = c.place(v, lay); r.place(v, lay)
                    return ("@A", i)
                def S(f, *a, rf=None, **k):
                    c.step(f, *a, **k); r.step(rf or f, *a, **k)
                if op in UN:
                    S(op, P(np.abs(x) if op == "np.sqrt" and dt.kind == "f" else x))
                elif op in BI:
                    S(op, P(x), P(y))
                elif op in RE or op == "np.bitwise_xor.reduce" or op == "np.sum":
                    S(op, P(x.astype("i8") if op not in RE and dt.kind == "f" else x))
                elif op == "np.sort" or op == "np.argsort":
                    S(op, P(x), kind="stable")
                elif op == "np.lexsort":
                    S("pn.lexsort", ("@L", [P(x), P(y)]), rf="np.lexsort")
                elif op == "get":
                    S("pn.getitem", P(x), P(rng.integers(-n, n, n)), rf=".__getitem__")
                elif op == "mask":
                    S("pn.getitem", P(x), P(rng.random(n) < rng.random()), rf=".__getitem__")
                elif op == "np.arange":
                    S(op, n, dtype=("@D", ["i4", "i8", "f8"][seed % 3]))
                elif op == "np.logical_and":
                    S(op, P(x), P(y))
                elif op == "cast":
                    S(".astype", P(x), ("@D", ["f8", "i8", "f4", "?"][seed % 4]))
                elif op == "out":
                    i = P(np.zeros(n, dt))
                    S("np.add", P(x), P(y), out=i)
            cases.append(c.case()); refs.append(r.case())
        kw = {"variant": "sched", "env": {"VSCHED": d["sched"]}, "timeout": 90} if d["sched"] else {}
        got = ctx.run({"multi": cases, "hot": 1, "repeat": 10 ** 6, "switch": d["switch"], "seconds": d["seconds"], "pre": d["pre"], "post": [], "bufs": [], "arrs": [], "steps": []}, **kw)
        if "errors" in got:
            return [Failure("thread error", str(got["errors"])[:500])]
        out = []
        for t, (c, outs) in enumerate(zip(refs, got["multi"])):
            exp = ctx.ref(c)
            for o, cnt in outs:
                for op, g, e in zip(d["threads"][t][1], o["steps"], exp["steps"]):
                    if op[0] == "np.lexsort" and g[0] == "ok" and g[1][1] == "<i4":       # the indices are int32 when they fit
                        g = ("ok", ("arr", "<i8", g[1][2], np.frombuffer(g[1][3], "i4").astype("i8").tobytes(), g[1][4]))
                    if g[:2] != e[:2]:
                        out.append(Failure("storm/" + op[0], "thread %d of %d, %d elements: %s on %s gave another result %d time(s): %s, expected %s" % (t, len(refs), d["threads"][t][0], op[0], op[1], cnt, brief(g), brief(e))))
                if not out and o["mem"] != exp["mem"]:
                    out.append(Failure("storm/memory", "thread %d of %d: memory of the operands or of an out= array differs, %d time(s)" % (t, len(refs), cnt)))
        return out[:3]

def brief(o):
    return "%s" % (o[1][:3],) + (" sha1 " + hashlib.sha1(o[1][3]).hexdigest()[:8] if o[0] == "ok" and o[1][0] in ("arr", "gen") else "")

class Toggling(Concurrent):
    """while another thread keeps changing the configuration"""
    name = "toggling"
    examples = {"quick": 250, "thorough": 8000}
    shards = {"quick": 2, "thorough": 8}
    toggles = True

class Perturbed(Concurrent):
    """random delays around every atomic operation of the engine"""
    name = "perturbed"
    examples = {"quick": 200, "thorough": 6000}
    shards = {"quick": 2, "thorough": 8}
    seconds = {"quick": 0.4, "thorough": 1.0}
    def config(self, draw, tier):
        return dict(Concurrent.config(self, draw, tier), sched=draw(st.sampled_from(["3000,0", "20000,0", "3000,20", "60000,5"])))
    def kwargs(self, d):
        return {"variant": "sched", "env": {"VSCHED": d["cfg"]["sched"]}, "timeout": 90}
PARTS = [Storm(), Hot(), Concurrent(), Toggling(), Perturbed()]
