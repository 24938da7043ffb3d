"""C14: the management interface reports and changes exactly the state it is asked to."""
import ast, math
import numpy as np
from hypothesis import strategies as st
import vgen, vjudge, vufunc, vreduce, vcmp
from vrun import Part, Failure
from props import c05

RULE = ("a history is non-trivial when it has at least 3 calls of which one changes the state; a /proc content when it lists at least one processor; "
        "a computation under disable() when it has at least 8 elements")
ASSUMPTIONS = ["the most workers thread_setworkers accepts is read back once per history (after asking for 1000); it must lie between 1 and the number of CPUs minus one",
               "the list of functions that can be accelerated is what atop_info() lists"]
DTS = [np.dtype(x).num for x in ("?", "i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8", "q", "Q", "f4", "f8")]
NAMES = ["add", "subtract", "multiply", "true_divide", "floor_divide", "minimum", "maximum", "logical_and", "bitwise_or", "equal", "less", "greater_equal", "absolute", "negative", "sqrt", "isnan",
         "floor", "rint", "sin", "exp", "log", "cos", "sign", "square"]
WRONG = ["", "nosuch", "Add", "power ", "add\u00e9"]

@st.composite
def ops(draw):
    k = draw(st.integers(0, 13))
    if k < 3:
        return [draw(st.sampled_from(["atop_enable", "atop_disable", "thread_enable", "thread_disable", "ledger_enable", "ledger_disable", "recycler_enable", "recycler_disable",
                                      "enable", "disable", "init", "initialize"]))]
    if k < 5:
        return [draw(st.sampled_from(["atop_isenabled", "thread_isenabled", "ledger_isenabled", "recycler_isenabled", "thread_getworkers", "ledger_info", "recycler_info", "keys"]))]
    if k == 5:
        return ["thread_setworkers", draw(st.one_of(st.integers(-3, 20), st.sampled_from([2**31 - 1, -2**31, 100, True, False, 2**31, -2**31 - 1, 2**80, "x", None, 1.5])))]
    if k == 6:
        return ["thread_zigzag"]
    if k == 7:
        return ["thread_setworkers"] + draw(st.sampled_from([[], [1, 2]]))
    name = draw(st.sampled_from(NAMES * 2 + WRONG))
    dt = draw(st.sampled_from(DTS * 2 + [-1, 17, 23, 99, 2**31 - 1]))
    if k < 10:
        return ["info", name, dt] if draw(st.integers(0, 9)) else ["info"] + draw(st.sampled_from([[name], [name, dt, 3], [dt, name], [name, "f8"], [None, None], [name, 1.5]]))
    if k < 12:
        n = draw(st.sampled_from([0, 1, 2, 3, 7, 15, 16, 31, 62, 63, 64, 65, 1000, -1, -2**31]))
        return ["atop_setworkers", name, dt, n] if draw(st.integers(0, 9)) else ["atop_setworkers"] + draw(st.sampled_from([[name], [name, dt], [name, dt, "x"], [dt, name, n], []]))
    if k == 12:
        return ["compute", draw(st.sampled_from(["add", "subtract", "less", "equal", "maximum"])), draw(st.sampled_from([0, 5, 1000, 65535, 65536, 70001, 200003])), draw(st.sampled_from(["i4", "f8", "f4", "i8"]))]
    return draw(st.sampled_from([["utc"], ["tsc", 5], ["tsc", 200], ["cpustring"], ["cpu_count"], ["all"]]))

def slot(a, b):
    """the two 64-bit integer type numbers of the platform are one type"""
    return (a, {np.dtype("q").num: np.dtype("i8").num, np.dtype("Q").num: np.dtype("u8").num}.get(b, b))

CHANGES = {"atop_enable", "atop_disable", "thread_enable", "thread_disable", "ledger_enable", "ledger_disable", "recycler_enable", "recycler_disable", "enable", "disable",
           "thread_setworkers", "thread_zigzag", "atop_setworkers"}

class Model:
    def __init__(self, cap, keys):
        self.s = {"atop": True, "thread": True, "ledger": False, "recycler": False}
        self.cap, self.workers, self.zig, self.max, self.keys = cap, cap, False, {}, keys
    def isint(self, x):
        return isinstance(x, int)
    def expect(self, op, got):
        """the value expected, or a (lambda got: bool, description)"""
        name, a = op[0], op[1:]
        if name in ("init", "initialize", "ledger_info", "recycler_info"):
            return "None"
        if name in ("enable", "disable"):
            self.s["atop"] = self.s["thread"] = name == "enable"
            return "None"
        if name.endswith(("_enable", "_disable")):
            s, w = name.rsplit("_", 1)
            self.s[s] = w == "enable"
            return "None"
        if name.endswith("_isenabled"):
            return repr(self.s[name[:-10]])
        if name == "thread_getworkers":
            return self.workers
        if name == "thread_setworkers":
            if len(a) != 1 or not self.isint(a[0]):
                return "exc:TypeError"
            if not -2**31 <= a[0] < 2**31:
                return "exc:OverflowError"
            old, self.workers = self.workers, max(1, min(int(a[0]), self.cap))
            return old
        if name == "thread_zigzag":
            self.zig = not self.zig
            return repr(self.zig)
        if name == "keys":
            return self.keys
        if name == "info":
            if not a:
                return (lambda g: g == {"dict": len(self.keys)} or isinstance(g, dict), "a dict")
            if len(a) != 2 or not isinstance(a[0], str) or not self.isint(a[1]):
                return "exc:TypeError"
            if [a[0], a[1]] not in self.keys:
                return "False"
            key = slot(a[0], a[1])
            def ok(g):
                if not isinstance(g, dict) or not g.get("types") or not g.get("old"):
                    return False
                m = g["MaxThreads"]
                if key in self.max and m != self.max[key]:
                    return False
                self.max[key] = m
                return 0 <= m < 64 and {"MaxThreads", "pOldFunc", "pUnaryFunc", "pBinaryFunc", "pReduceFunc"} <= set(g["keys"])
            return (ok, "a dict whose MaxThreads is %s" % self.max.get(key, "0..63"))
        if name == "atop_setworkers":
            good = len(a) == 3 and isinstance(a[0], str) and self.isint(a[1]) and self.isint(a[2])
            if not good:
                return "exc:TypeError" if self.s["atop"] else (lambda g: g in ("exc:TypeError", "False"), "TypeError or False")
            key = slot(a[0], a[1])
            if not self.s["atop"] or [a[0], a[1]] not in self.keys or not 0 <= a[2] < 64:
                return "False"
            old = self.max.get(key)
            self.max[key] = int(a[2])
            if old is None:
                return (lambda g: isinstance(g, int) and 0 <= g < 64, "the previous number")
            return old
        if name == "compute":
            return True
        if name == "utc":
            return ["int", True]
        if name == "tsc":
            return [True, True]
        if name == "cpustring":
            return ["str", True, True, True]
        if name == "cpu_count":
            return ["tuple", 2, True, True]
        if name == "all":
            return []
        raise ValueError(name)

class History(Part):
    name = "history"
    examples = {"quick": 4000, "thorough": 60000}
    shards = {"quick": 6, "thorough": 8}
    def strategy(self, tier):
        return st.lists(ops(), min_size=1, max_size=40 if tier == "quick" else 120)
    def nontrivial(self, d):
        return len(d) >= 3 and any(o[0] in CHANGES for o in d)
    def execute(self, d, ctx):
        seq = [["reset"], ["keys"]] + d + [[x + "_isenabled"] for x in ("atop", "thread", "ledger", "recycler")] + [["thread_getworkers"]]
        # everything set is read back at the end, and put back
        keys = sorted({(o[1], o[2]) for o in d if o[0] == "atop_setworkers" and len(o) == 4 and isinstance(o[1], str) and isinstance(o[2], int)})
        before = [["atop_enable"]] + [["info", a, b] for a, b in keys]
        tail = [["info", a, b] for a, b in keys]
        seq = seq[:1] + before[1:] + seq[1:] + tail
        back = {"bufs": [], "arrs": [], "steps": [("mgmt", [seq], {})]}
        got = ctx.run(back)["steps"][0]
        if got[0] != "ok":
            return [Failure("mgmt exception", str(got)[:300])]
        res = ast.literal_eval(got[1][1])
        r0 = res[0]
        if not (isinstance(r0, list) and isinstance(r0[0], int) and (1 <= r0[0] <= max(1, r0[1] - 1) or r0[1] == 1)):
            return [Failure("cap", "after thread_setworkers(1000): %s workers with %s CPUs" % tuple(r0))]
        ikeys = res[len(before)]
        m = Model(r0[0], ikeys)
        start = {}
        if len(ikeys) < 50 or not all(isinstance(k, list) and len(k) == 2 and isinstance(k[0], str) and isinstance(getattr(np, k[0], None), np.ufunc) and k[1] in DTS for k in ikeys):
            return [Failure("keys", "atop_info() keys: %s" % str(ikeys)[:300])]
        fails = []
        for i, (op, g) in enumerate(zip(seq, res)):
            if op[0] == "reset":
                continue
            w = m.expect(op, g)
            ok = w[0](g) if isinstance(w, tuple) else (type(g) is type(w) and g == w)
            if 0 < i < len(before) and isinstance(g, dict):
                start[slot(op[1], op[2])] = g["MaxThreads"]
            if not ok:
                fails.append(Failure("mgmt " + op[0], "call %d, %s, gave %s; expected %s" % (i, op, str(g)[:200], w[1] if isinstance(w, tuple) else str(w)[:200])))
                break
        # restore the per-function workers
        ctx.run({"bufs": [], "arrs": [], "steps": [("mgmt", [[["atop_enable"]] + [["atop_setworkers", k[0], k[1], v] for k, v in start.items()] + [["ledger_disable"], ["recycler_disable"]]], {})]})
        return fails

class Bench(Part):
    """benchmark_func returns one finite positive ratio per type, and leaves the engine on or off as asked"""
    name = "benchmark"
    examples = {"quick": 60, "thorough": 800}
    shards = {"quick": 2, "thorough": 4}
    def strategy(self, tier):
        @st.composite
        def s(draw):
            f, un, red = draw(st.sampled_from([("add", False, False), ("equal", False, False), ("sqrt", True, False), ("sum", True, True), ("sin", True, False), ("maximum", False, False), ("any", True, True)]))
            return [f, draw(st.lists(st.sampled_from(["f4", "f8"] + (["i4", "i8", "i2"] if f not in ("sqrt", "sin") else [])), min_size=1, max_size=3)),
                    draw(st.sampled_from([10, 1000, 70001])), un, red, draw(st.booleans()), draw(st.booleans()) and not un, draw(st.booleans()), draw(st.booleans())]
        return s()
    def execute(self, d, ctx):
        seq = [["reset"], ["bench"] + d, ["atop_isenabled"], ["thread_isenabled"], ["thread_getworkers"], ["enable"], ["atop_isenabled"], ["thread_isenabled"]]
        got = ctx.run({"bufs": [], "arrs": [], "steps": [("mgmt", [seq], {})]})["steps"][0]
        res = ast.literal_eval(got[1][1])
        want = [["ndarray", len(d[1]), True], repr(bool(d[7])), repr(bool(d[8])), res[0][0], "None", "True", "True"]
        for op, g, w in zip(seq[1:], res[1:], want):
            if g != w:
                return [Failure("bench " + op[0], "%s gave %s, expected %s (%s)" % (op, g, w, d))]
        return []

class CpuCount(Part):
    """cpu_count_linux under any content of the files it reads"""
    name = "cpu_count"
    examples = {"quick": 1500, "thorough": 20000}
    shards = {"quick": 2, "thorough": 4}
    def strategy(self, tier):
        @st.composite
        def s(draw):
            cpus = draw(st.lists(st.tuples(st.integers(0, 3), st.integers(1, 64)), min_size=0, max_size=9))
            per = {}
            for p, c in cpus:
                per.setdefault(p, c)
            return {"cpus": [[p, per[p]] for p, c in cpus], "phys": draw(st.booleans()), "info": draw(st.sampled_from([True, True, True, False])), "name": draw(st.sampled_from(["processor\t: %d", "Processor\t: %d"])),
                    "stat": draw(st.integers(0, 9)), "cores": draw(st.lists(st.sampled_from(["0", "1", "0-1", "2-3", "0,4", "1,5", "7"]), max_size=8)),
                    "sysconf": draw(st.sampled_from([None, None, 1, 2, 8, 300]))}
        return s()
    def nontrivial(self, d):
        return bool(d["cpus"] or d["cores"])
    def execute(self, d, ctx):
        txt = ""
        for i, (p, c) in enumerate(d["cpus"]):
            txt += d["name"] % i + "\nmodel name\t: X\n" + ("physical id\t: %d\ncpu cores\t: %d\n" % (p, c) if d["phys"] else "") + "flags\t\t: avx2\n\n"
        if not d["info"]:
            txt = ""
        stat = "cpu  1 2 3\n" + "".join("cpu%d 1 2 3\n" % i for i in range(d["stat"])) + "intr 5\nctxt 9\n"
        got = ctx.run({"bufs": [], "arrs": [], "steps": [("cpufiles", [txt, stat, [c + "\n" for c in d["cores"]], d["sysconf"]], {})]})["steps"][0]
        n = d["sysconf"] or (len(d["cpus"]) if d["info"] else 0) or d["stat"] or None
        ph = len(set(d["cores"])) or (sum(dict(map(tuple, d["cpus"])).values()) if d["phys"] and d["info"] else 0) or None
        if got[0] != "ok":
            return [Failure("cpu_count exception", "%s for %s" % (got[1:3], d))]
        g = tuple(x[1] for x in got[1][1])
        if g != (n, ph):
            return [Failure("cpu_count value", "got %s, expected %s for %s" % (g, (n, ph), d))]
        return []

class Disabled(Part):
    """after disable() every hooked operation is numpy's own, bit for bit, floating point reports included"""
    name = "disabled"
    examples = {"quick": 8000, "thorough": 100000}
    shards = {"quick": 6, "thorough": 8}
    def strategy(self, tier):
        uf = st.one_of(vufunc.ufunc_desc(vufunc.ARITH + vufunc.COMPARE, 2, vgen.HOOKED), vufunc.ufunc_desc(vufunc.UNARY, 1, vgen.HOOKED), vufunc.ufunc_desc(vufunc.TRIG, 1, ["f4", "f8"]),
                       vreduce.reduce_desc(methods=("reduce", "accumulate")))
        return st.tuples(st.sampled_from([[["disable"]], [["atop_disable"], ["thread_disable"]], [["enable"], ["disable"]], [["thread_setworkers", 3], ["disable"]], [["thread_disable"], ["atop_disable"], ["thread_zigzag"]]]), uf).map(list)
    def nontrivial(self, d):
        return int(np.prod(d[1]["shape"])) >= 8
    def execute(self, d, ctx):
        pre, x = d
        if x["f"] in ("isnan", "isinf", "isfinite", "signbit") and (x["out"] or "where" in x or len(x["shape"]) > 1):
            return []        # numpy 1.26 itself is wrong for a strided output
        if "m" in x:
            case, k, outk, view, kw = vreduce.build(x)
        else:
            case, k, outk, views = vufunc.build(x)
        got, want = ctx.run(dict(case, pre=pre)), ctx.ref(case)
        s = "disabled %s%s %s " % (x["f"], "." + x["m"] if "m" in x else "", x.get("dt") or ",".join(i["dt"] for i in x["in"]))
        tol = vjudge.near_ulps if x["f"] == "power" or x["f"] in vufunc.TRIG else None
        # adding pairwise depends on the alignment only through the buffers numpy chooses: bit for bit otherwise
        r = vcmp.diff_step(got["steps"][k], want["steps"][k], signed_zero=x["f"] not in ("minimum", "maximum"), tol=tol or (vreduce.tolerance(x, view, kw) if "m" in x else None))
        if r:
            return [Failure(s + r.kind, s + r.msg)]
        m = vcmp.diff_mem(got, want, case, [outk] if outk is not None else [])
        if m:
            return [Failure(s + "memory", s + m.msg)]
        gf, wf = got["steps"][k][-1], want["steps"][k][-1]
        # the replaced predicates of the reference cannot report anything
        if gf != wf and x["f"] not in ("isnan", "isinf", "isfinite", "signbit") and x["f"] not in vufunc.TRIG and x["f"] != "power" and want["steps"][k][0] == "ok":
            return [Failure(s + "flags", s + "floating point reports %s, expected %s" % (gf, wf))]
        return []
PARTS = [History(), Bench(), CpuCount(), Disabled()]
