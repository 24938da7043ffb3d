"""C25: the same call on the same data gives the same bits, however the work was divided, in whatever order it was done and wherever the data lies."""
import json, os
from hypothesis import strategies as st
from vrun import Part, Failure
import vclient, vcmp, vunder
from props.c13 import FN

RULE = "a case is a generated case of C01-C12, executed 2 to 4 times under different circumstances; non-trivial when the inner case is"
ASSUMPTIONS = ["values are compared bit for bit (signed zeros included); only the payload of NaNs, which the order of operands decides, is free",
               "turning threads or the fast loops on or off is not among the circumstances: it replaces the algorithm (C13 judges these results)"]

def circumstances(draw):
    """configuration operations that must not change a single bit"""
    one = st.one_of(st.just(["thread_zigzag"]), st.integers(1, 17).map(lambda n: ["thread_setworkers", n]), st.integers(1, 17).map(lambda n: ["thread_setworkers", n]),
                    st.sampled_from([["recycler_enable"], ["recycler_disable"]]),
                    st.tuples(st.sampled_from(FN), st.sampled_from(["?", "i4", "i8", "f4", "f8"]), st.sampled_from([1, 2, 3, 7, 63])).map(lambda t: ["setworkers_of"] + list(t)))
    return draw(st.lists(one, min_size=0, max_size=4))

WHERE = {"thread": {"thread": 1}, "fork": {"fork": 1, "busy": 0}, "sig": {"sig": 150, "sigwork": 1}}

def shift_results(x):
    """references to results after one more step was put in front"""
    if isinstance(x, tuple):
        return (x[0], x[1] + 1) if len(x) == 2 and isinstance(x[0], str) and x[0] == "@R" else tuple(shift_results(y) for y in x)
    if isinstance(x, list):
        return [shift_results(y) for y in x]
    return {k: shift_results(v) for k, v in x.items()} if isinstance(x, dict) else x

def shifted(case, k):
    """the same case with every block at another address"""
    return dict(case, bufs=[dict(b, align=(b.get("align", 0) + 64 - k) % 64) for b in case["bufs"]]) if k else case

def first_difference(a, b, case):
    for i, (x, y) in enumerate(zip(a["steps"], b["steps"])):
        if x[0] == "ok" and y[0] == "ok":
            if x[2] != y[2]:
                return "flags", "step %d: floating point reports %s, then %s" % (i, x[2], y[2])
            if x[1][0] != y[1][0] or x[1][0] == "obj":
                if repr(x[1]) != repr(y[1]):
                    return "value", "step %d: %s, then %s" % (i, repr(x[1])[:300], repr(y[1])[:300])
                continue
            if case["steps"][i][0] == "np.setbufsize":       # returns what the previous case left
                continue
            r = vcmp.diff_packed(y[1], x[1])
            if r:
                return r.kind, "step %d: %s" % (i, r.msg)
        elif x != y:
            return "outcome", "step %d: %r, then %r" % (i, x[:3], y[:3])
    if a["mem"] == b["mem"]:
        return None
    raised = any(x[0] == "exc" for x in a["steps"])       # numpy leaves anything in the output then
    for k, spec in enumerate([] if raised else case["arrs"]):      # written arrays: as values
        x, y = vcmp.written_elements(a, b, case, k)
        if x.tobytes() != y.tobytes() and (x.dtype.hasobject or vcmp.mismatch_mask(x, y).any()):
            return "written", "array %d: the elements written differ" % k
    m = vcmp.diff_mem(b, a, case, range(len(case["arrs"])))
    return ("memory", m.msg) if m else None

class Again(Part):
    name = "again"
    groups = None
    bias = 12
    runs = (2, 4)
    examples = {"quick": 9000, "thorough": 150000}
    shards = {"quick": 8, "thorough": 8}
    def strategy(self, tier):
        @st.composite
        def s(draw):
            runs = [[circumstances(draw), draw(st.sampled_from([0, 0, 16, 32, 48])), draw(st.sampled_from([None] * 6 + ["thread", "fork", "sig", "cpu1", "cpu2", "cpu5"]))] for _ in range(draw(st.integers(*self.runs)))]
            return {"runs": runs, "inner": draw(vunder.inner_strategy(tier, self.groups, bias=self.bias))}
        return s()
    def nontrivial(self, d):
        m, n, x = d["inner"]
        return vunder.inner_part(m, n).nontrivial(x)
    def execute(self, d, ctx):
        m, n, x = d["inner"]
        cap = []
        try:
            vunder.inner_part(m, n).execute(x, vunder.Proxy(ctx, capture=cap))
        except vunder.Stored:
            pass
        if not cap:
            return []
        case = {k: v for k, v in cap[0].items() if k not in ("pre", "post", "fork", "thread")}
        if any(w for _, _, w in d["runs"]):      # the size of numpy's buffers belongs to the thread
            case["steps"] = [("np.setbufsize", (8192 * 1024,), {})] + [shift_results(t) for t in case["steps"]]
        first = None
        for pre, k, where in d["runs"]:
            c, kw = dict(shifted(case, k), pre=pre), {}
            if where in WHERE:
                c.update(WHERE[where])
            elif where:
                kw = {"cpus": [i for i in range(min(int(where[3:]), os.cpu_count() or 1))]}
            r = ctx.run(c, **kw)
            if "child" in r:
                return [Failure("%s.%s/child" % (m, n), "the forked child: %s" % r["child"])]
            if first is None:
                first = r
                continue
            f = first_difference(first, r, case)
            if f:
                return [Failure("%s.%s/%s" % (m, n, f[0]), "the same call gave %s under %s and then under %s" % (f[1], json.dumps(d["runs"][0])[:300], json.dumps([pre, k, where])[:300]))]
        return []

class Reduced(Again):
    """reductions and scans only, more often: their partial results are combined"""
    name = "reduced"
    groups = ["reduce"]
    bias = 25
    runs = (3, 6)
    examples = {"quick": 3000, "thorough": 60000}
    shards = {"quick": 4, "thorough": 8}

PARTS = [Again(), Reduced()]
