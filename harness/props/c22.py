"""C22: when memory runs out, a call raises MemoryError or still gives the right result; what follows works as ever."""
import json
from hypothesis import strategies as st, assume
from vrun import Failure, Part
import vbuild, vclient, vunder
from props import c20
from props.c13 import cfg_ops

RULE = "a case is a call or a generated case of C01-C12 during which one allocation, or that and every later one, fails; non-trivial when an allocation did fail"
ASSUMPTIONS = ["allocations that fail are those of array data (numpy's allocator), of pnumpy's own work space (malloc called by the extension module) and of interpreter objects created on behalf of the extension module; allocations inside numpy and the interpreter are not made to fail",
               "operands written by a call that raises MemoryError may hold anything"]
MEM = ("MemoryError", "_ArrayMemoryError")

# numpy 1.26 crashes by itself when it cannot allocate its buffer for a column to be sorted, or the copy putmask works on
NUMPY = (".sort", "np.sort", "pn.sort", ".argsort", "np.argsort", "pn.argsort", "np.lexsort")

def env():
    return {"env": {"LD_PRELOAD": vbuild.native("voom")}}

class Again:
    """what stays behind does so in two more, fresh processes"""
    def execute(self, d, ctx):
        f = self.once(d, ctx)
        for _ in range(2):
            if any("leak" in x.sig for x in f):
                for t in ctx.targets.values(): t.kill()
                f = self.once(d, ctx)
        return f

class Ops(Again, vunder.Under):
    name = "ops"
    bias = 3
    examples = {"quick": 9000, "thorough": 90000}
    shards = {"quick": 8, "thorough": 8}
    def config(self, draw, tier):
        return {"pre": cfg_ops(draw, 0, 1), "kind": draw(st.sampled_from(["data"])), "k": draw(st.integers(0, 40)), "sticky": draw(st.integers(0, 1)), "reps": draw(st.sampled_from([0, 0, 20]))}
    def once(self, d, ctx):
        m, n, x = d["inner"]
        p = vunder.inner_part(m, n)
        cap = []
        try:
            p.execute(x, vunder.Proxy(ctx, capture=cap))
        except vunder.Stored:
            pass
        if not cap or cap[0].get("multi"):
            return []
        c = d["cfg"]
        if c["kind"] == "data" and (m == "c09" or (m, n) == ("c10", "numpy_indexing") or any(t[0] in NUMPY for t in cap[0]["steps"])):
            c = dict(c, kind="own")
        r = ctx.run(dict(cap[0], pre=c["pre"], oom={k: c[k] for k in ("kind", "k", "sticky", "reps")}), **dict(p.target, **env()))
        how = "allocation %s of %s (%s%s) failed, under %s: " % (r.get("at"), r.get("allocs"), c["kind"], " and all later" if c["sticky"] else "", json.dumps(c["pre"]))
        out = []
        def judge(o, what):
            for f in vunder.run_inner(m, n, x, vunder.Proxy(ctx, outcomes=[o]), ctx):
                out.append(Failure("%s.%s/%s %s" % (m, n, what, f.sig), how + what + ": " + f.msg, f.finding))
        self.fired = "oom" in r and r["fired"]
        if "oom" in r:
            o = r["oom"]
            bad = None
            for i, (a, b) in enumerate(zip(o["steps"], r["steps"])):
                if a[0] == "exc" and a[1] in MEM:
                    bad = "memory"
                    break
                if a[0] == "exc" and b[0] == "ok":
                    bad = "exc"
                    if c["kind"] == "data" and a[1] in self.alone(cap[0], i, ctx):
                        break
                    out.append(Failure("%s.%s/raised %s" % (m, n, a[1]), how + "%s raised %s: %s" % (cap[0]["steps"][i][0], a[1], a[2])))
                    break
            if bad is None:
                judge(o, "result")
            judge(r["after"], "afterwards")
            if r.get("leaks"):
                out.append(Failure("%s.%s/leak %s" % (m, n, r["leaks"][0][0]), how + "every time, this stays behind: %s" % r["leaks"]))
        return out
    def alone(self, case, i, ctx):
        """what numpy alone raises in step i when array data cannot be allocated"""
        r = [ctx.run(dict(case, oom={"kind": "data", "k": k, "sticky": s, "reps": 0}), mode="plain", env=dict(env()["env"], VMEM=vbuild.native("vmem"))) for k in range(8) for s in (0, 1)]
        return {x["oom"]["steps"][i][1] for x in r if "oom" in x and x["oom"]["steps"][i][0] == "exc"}
    fired = 0
    def nontrivial(self, d):
        return bool(self.fired)

FUNCS = [f for f in c20.HEAVY if f != "argsort"] + ["lexsort", "atop_info", "atop_info", "atop_setworkers", "thread_setworkers", "thread_getworkers", "atop_isenabled", "cpustring", "initialize", "getitem", "_pnumpy.sort"]
class Any(Again, Part):
    """calls with arbitrary arguments, as in C20"""
    name = "any"
    examples = {"quick": 6000, "thorough": 90000}
    shards = {"quick": 4, "thorough": 8}
    def strategy(self, tier):
        @st.composite
        def s(draw):
            d = draw(c20.call(FUNCS))
            assume(not c20.records(d["a"]) and not c20.records(list(d["kw"].values())))
            d["oom"] = {"kind": draw(st.sampled_from(["own", "py", "py"])), "k": draw(st.integers(0, 40)), "sticky": draw(st.integers(0, 1)), "reps": draw(st.sampled_from([0, 0, 20]))}
            d["pre"] = cfg_ops(draw, 0, 1)
            return d
        return s()
    fired = 0
    def nontrivial(self, d):
        return bool(self.fired)
    def once(self, d, ctx):
        self.fired = 0
        r = ctx.run({"bufs": [], "arrs": [], "steps": [("junkoom", [d], {})], "guard": None, "pre": d["pre"], "loose": True}, **env())["steps"][0]
        c = d["oom"]
        inf = "pn.%s(%s, %s), " % (d["f"], json.dumps(d["a"])[:700], json.dumps(d["kw"])[:300])
        if r[0] != "ok":
            return [Failure("%s harness" % d["f"], inf + str(r[1:]))]
        n, at, fired, first, bad, after, leaks = c20.unpacked(r[1])
        self.fired = fired
        if not n:
            return []
        inf += "allocation %s of %s (%s%s) failed, under %s: " % (at, n, c["kind"], " and all later" if c["sticky"] else "", json.dumps(d["pre"]))
        out = []
        if bad != first and not (bad[0] == "exc" and (bad[1] in MEM or first[0] == "exc" and bad[1] != "SystemError")):
            out.append(Failure("%s result" % d["f"], inf + "gave %s, expected MemoryError or %s" % (str(bad)[:200], str(first)[:200])))
        if "setworkers" in d["f"] or "initialize" == d["f"]:      # it changed what it returns next
            after, first = after[:2], first[:2]
        if after != first:
            out.append(Failure("%s afterwards" % d["f"], inf + "the next call gave %s, expected %s" % (str(after)[:200], str(first)[:200])))
        if leaks:
            out.append(Failure("%s leak %s" % (d["f"], leaks[0][0]), inf + "every time, this stays behind: %s" % leaks))
        return out

PARTS = [Ops(), Any()]
