"""C21: a call leaves nothing behind: memory in use and reference counts stay as they are."""
import json
from hypothesis import strategies as st
from vrun import Failure
import vbuild, vclient, vunder
from props import c20
from props.c13 import cfg_ops

RULE = "a case is a call repeated 30 times or more, with generated arguments (any, or a case of C01-C12); non-trivial when it has an array or container among its arguments (any) or as in the inner property"
ASSUMPTIONS = ["measured are the interpreter's allocated blocks, the data blocks of numpy, malloc's bytes in use, and the references to the arguments and to the shared dtypes and types; what numpy alone leaves behind for the same call is not pnumpy's"]

class Kept(c20.Any):
    """the same call over and over, whatever its arguments"""
    name = "kept"
    leaks = True
    examples = {"quick": 6000, "thorough": 80000}
    shards = {"quick": 4, "thorough": 8}
    def execute(self, d, ctx):
        f = super().execute(d, ctx)
        for _ in range(2):
            if f and "leak" in f[0].sig:
                ctx.target().kill()          # in a fresh process as well
                f = super().execute(d, ctx)
        return f

class Ops(vunder.Under):
    """the operations of C01-C12, over and over"""
    name = "ops"
    bias = 2
    examples = {"quick": 4000, "thorough": 80000}
    shards = {"quick": 6, "thorough": 8}
    def config(self, draw, tier):
        return {"pre": cfg_ops(draw, 0, 2)}
    def execute(self, d, ctx):
        m, n, x = d["inner"]
        p = vunder.inner_part(m, n)
        cap = []
        try:
            p.execute(x, vunder.Proxy(ctx, capture=cap))
        except vunder.Stored:
            pass
        if not cap:
            return []
        case = dict(cap[0], pre=d["cfg"]["pre"], leak=30)
        for i in range(3):
            left = ctx.run(case, **p.target)["leaks"]
            if not left:
                return []
            if i < 2:
                ctx.target(**p.target).kill()          # in a fresh process as well
        alone = ctx.run({k: v for k, v in case.items() if k != "pre"}, mode="plain", env={"VMEM": vbuild.native("vmem")})["leaks"]
        left = [l for l in left if l[:2] not in [a[:2] for a in alone]]
        return [Failure("%s.%s leak %s" % (m, n, left[0][0]), "under %s %s: every execution of %s leaves behind %s" % (json.dumps(d["cfg"]), json.dumps(x)[:600], case["steps"][-1][0], left))] if left else []
PARTS = [Kept(), Ops()]
