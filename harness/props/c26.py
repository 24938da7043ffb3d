"""C26: large operations are shared among the workers, within the limits set."""
import json, os
from hypothesis import strategies as st
from vrun import Part, Failure
import vexec
from props.c13 import cfg_ops

RULE = "a case is a history of settings and an operation whose CPU time per thread is measured; always non-trivial"
ASSUMPTIONS = ["the CPU clocks of the threads tell who did the work; a measurement is repeated, longer each time, for 12 s until it shows what is expected, so other load on the machine delays the answer but does not change it",
               "nothing is measured where the process may use only one CPU"]
B = "?bBhHiIlLqQfd"
TRIG = ["sin", "cos", "tan", "arcsin", "arccos", "arctan", "sinh", "cosh", "tanh", "arcsinh", "arctanh", "cbrt", "exp", "exp2", "expm1", "log", "log2", "log10", "log1p"]
HOOKED = {"binary": {"add": B, "subtract": B[1:], "multiply": B, "true_divide": "fd", "floor_divide": "fd", "minimum": B, "maximum": B, "logical_and": "?", "logical_or": "?", "bitwise_and": B[:-2], "bitwise_or": B[:-2],
                     "bitwise_xor": B[:-2], "left_shift": B[1:-2], "right_shift": B[1:-2], "equal": B, "not_equal": B, "greater": B, "greater_equal": B, "less": B, "less_equal": B},
          "unary": {"absolute": B, "signbit": "fd", "invert": B[:-2], "floor": "fd", "ceil": "fd", "trunc": "fd", "rint": "fd", "negative": B[1:], "sign": "bhilqfd", "sqrt": "fd", "logical_not": B, "isinf": B, "isnan": B, "isfinite": B,
                    **{f: "fd" for f in TRIG}},
          "reduce": {"add": B, "multiply": B, "minimum": B, "maximum": B, "bitwise_and": B[:-2], "bitwise_or": B[:-2], "bitwise_xor": B[:-2], "logical_and": "?", "logical_or": "?"}}
SORTED = "bBhHiIlLqQfd"

def operation(draw):
    k = draw(st.sampled_from(["unary", "unary", "binary", "binary", "reduce", "sort", "argsort", "lexsort", "mask", "fancy", "rec", "arange"]))
    s = {"k": k, "n": draw(st.sampled_from([65536, 65537, 131072, 200003, 262144, 400000, 1 << 20]))}
    if k in HOOKED:
        s["f"] = draw(st.sampled_from(sorted(HOOKED[k])))
        s["dt"] = draw(st.sampled_from(HOOKED[k][s["f"]]))
        s["n"] = draw(st.sampled_from([262144, 400000, 1 << 20, 2000003]))
        s["st"] = draw(st.sampled_from([1, 1, 1, 2, -1]))
        s["rows"] = draw(st.sampled_from([1, 1, 1, 3]))
        if k == "unary" and s["f"] in TRIG and draw(st.integers(0, 3)) == 0:
            s.update(n=draw(st.sampled_from([65536, 65537, 81920])), rows=1)
        if k == "binary":
            s["scalar"] = draw(st.integers(0, 3)) == 0
    elif k in ("sort", "argsort"):
        s["f"] = draw(st.sampled_from(["quicksort", "stable"]))
        s["dt"] = draw(st.sampled_from(SORTED if s["f"] == "quicksort" else SORTED[4:]))      # numpy's stable sort of small integers is another one
    elif k == "lexsort":
        s["f"] = draw(st.sampled_from(["lexsort32", "lexsort64"])); s["dt"] = draw(st.sampled_from(SORTED))
    elif k == "rec":
        s["dt"] = "rec"
    elif k == "arange":
        s["dt"] = draw(st.sampled_from("iIlLqQfd")); s["n"] = draw(st.sampled_from([262144, 400000, 1 << 20]))
    else:
        s["dt"] = draw(st.sampled_from(SORTED + "?")); s["n"] = draw(st.sampled_from([262144, 400000, 1 << 20]))
        s["f"] = draw(st.sampled_from("il")) 
    return s

class Shared(Part):
    name = "shared"
    examples = {"quick": 2400, "thorough": 24000}
    shards = {"quick": 3, "thorough": 3}
    def strategy(self, tier):
        @st.composite
        def s(draw):
            op = operation(draw)
            want = draw(st.sampled_from(["some", "some", "some", "off", "small", "cap", "idle"]))
            pre = cfg_ops(draw, 0, 3)
            if want == "some":
                end = [["enable"], ["thread_enable"], ["thread_setworkers", draw(st.integers(1, 9))]]
                op["want"] = "some"
            elif want == "idle":
                end = [["enable"], ["thread_enable"], ["thread_setworkers", draw(st.integers(1, 9))]]
                op["want"] = "idle"
            elif want == "off":
                end = [["enable"], ["thread_disable"]]
                op["want"] = "none"
            elif want == "small":
                end = [["enable"], ["thread_enable"], ["thread_setworkers", 7]]
                if op["k"] == "rec":         # one column is one piece of work, whatever its length
                    op.update(k="unary", f="sqrt", dt="d")
                op.update(want="none", rows=1, n=draw(st.sampled_from([1000, 20000, 65535])))
            else:
                w = draw(st.sampled_from([-3, 0, 1, 1, 2]))
                end = [["enable"], ["thread_enable"], ["thread_setworkers", w]]
                op.update(want="cap", cap=max(w, 1))
                if op["k"] in ("unary", "binary", "reduce") and draw(st.booleans()):       # the limit of this function and type only
                    w = draw(st.sampled_from([1, 1, 2]))
                    end = [["enable"], ["thread_enable"], ["thread_setworkers", 7], ["setworkers_of", {"absolute": "abs"}.get(op["f"], op["f"]), op["dt"], w]]
                    op["cap"] = w
            op["events"] = draw(st.lists(st.sampled_from(["fork", "thread", "threads", "raise", "sleep", "burst"]), max_size=2))
            return {"pre": [p for p in pre if p[0] != "setworkers_of"] + end, "op": op}
        return s()
    def nontrivial(self, d):
        return True
    def execute(self, d, ctx):
        case = {"bufs": [], "arrs": [], "steps": [("share_of", (d["op"],), {})], "pre": d["pre"]}
        r = ctx.run(case)["steps"][0]
        if r[0] != "ok":
            return [Failure("error", str(r)[:300])]
        v = r[1]
        ok = v[1][0][1] if v[0] in ("lst", "tup") else v
        o = d["op"]
        if ok is not True:
            return [Failure("%s %s %s %s" % (o["want"], o["k"], o.get("f"), o["dt"]), "expected %s of the work done by workers: [ok, wall ms, caller ms, workers ms] = %s after %s" % (o["want"], str(v)[:300], json.dumps(d["pre"])[:300]))]
        return []
PARTS = [Shared()]
