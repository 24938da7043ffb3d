"""C19: floating point errors are reported as by numpy."""
import json
import vunder, vgen
from vrun import Part, Failure
from props.c13 import cfg_ops

RULE = "a case is a configuration history plus a generated case of C01-C06 (ufuncs and reductions); non-trivial when that case is (at least 8 elements, ...)"
ASSUMPTIONS = ["the kinds of floating point error reported to np.seterrcall are compared per call, as a set, with those numpy reports for the same arrays",
               "whether a transcendental function reports an underflow depends on the algorithm (numpy's own loops differ from each other): not compared"]

class Flags(vunder.Under):
    """divide, overflow, underflow, invalid: reported exactly when numpy reports them"""
    name = "flags"
    bias = 2
    examples = {"quick": 20000, "thorough": 160000}
    shards = {"quick": 8, "thorough": 8}
    groups = ["ufunc", "reduce"]
    def config(self, draw, tier):
        return cfg_ops(draw, 0, 3)
    def execute(self, d, ctx):
        m, n, x = d["inner"]
        got = []
        class P(vunder.Proxy):
            def run(self, case, **kw):
                case = dict(case, pre=d["cfg"])
                r = self.ctx.run(case, **kw) if kw else self.ctx.run(case)
                got.append((case, r))
                return r
        vunder.inner_part(m, n).execute(x, P(ctx))      # values are judged by the other properties
        out = []
        for case, r in got:
            w = ctx.ref({k: v for k, v in case.items() if k != "pre"})
            for s, a, b in zip(case["steps"], r["steps"], w["steps"]):
                if a[0] != "ok" or b[0] != "ok":
                    continue
                no = {"underflow"} if m == "c04" else set()
                extra = sorted(set(a[2]) - set(b[2]) - no)
                miss = sorted(set(b[2]) - set(a[2]) - no)
                if extra or miss:
                    dts = ",".join(str(case["arrs"][q[1]][1]) for q in s[1] if isinstance(q, tuple) and q and q[0] == "@A")
                    out.append(Failure("%s.%s %s %s" % (m, n, s[0], "lost" if miss else "spurious"),
                                       "%s of %s reported %s, numpy %s; under %s" % (s[0], dts, list(a[2]), list(b[2]), json.dumps(d["cfg"])[:300])))
        return out
PARTS = [Flags()]
