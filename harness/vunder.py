"""Running the generated cases of other properties under another regime (configuration, CPU set, thread, fork, guard pages...).
The case generators and the judges are those of the inner property; only how the target executes the case changes."""
import importlib, json
from hypothesis import strategies as st
from vrun import Part, Failure, Ctx
import vclient, vgen

MENU = {"ufunc": [("c01", "arith"), ("c02", "compare"), ("c03", "unary"), ("c04", None)],
        "reduce": [("c05", None), ("c06", None)],
        "sort": [("c07", None), ("c08", None)],
        "other": [("c09", None), ("c10", None), ("c11", None), ("c12", None)]}

def inner_part(mod, name):
    m = importlib.import_module("props." + mod)
    return {p.name: p for p in m.PARTS}[name]

def all_inner(groups=None, skip=()):
    out = []
    for g, lst in MENU.items():
        if groups and g not in groups:
            continue
        for mod, name in lst:
            m = importlib.import_module("props." + mod)
            for p in m.PARTS:
                if (name is None or p.name == name) and (mod, p.name) not in skip:
                    out.append((mod, p.name))
    return out

class Stored(Exception):
    pass

class Proxy:
    """a Ctx whose target runs are changed by `edit(case)`, or answered by stored outcomes"""
    def __init__(self, ctx, edit=None, kw=None, outcomes=None, capture=None):
        self.ctx, self.edit, self.kw, self.outcomes, self.capture = ctx, edit, kw, outcomes, capture
        self.raw = []
    def run(self, case, **kw):
        if self.capture is not None:
            self.capture.append(case)
            raise Stored()
        if self.outcomes:
            r = self.outcomes.pop(0)
            if "child" in r:
                raise vclient.TargetHung("the forked child: %s" % r["child"]) if r["child"] == "hung" else vclient.TargetDied("the forked child ended with %s" % r["child"])
            return r
        kw = dict(self.kw or {}, **kw)
        if self.edit:
            case = self.edit(case)
        r = self.ctx.run(case, **kw) if kw else self.ctx.run(case)
        self.raw.append(r)
        if "child" in r:
            raise vclient.TargetHung("the forked child: %s" % r["child"]) if r["child"] == "hung" else vclient.TargetDied("the forked child ended with %s" % r["child"])
        return r
    def ref(self, case):
        return self.ctx.ref(case)
    def both(self, case, **kw):
        return self.run(case, **kw), self.ref(case)

def inner_strategy(tier, groups=None, skip=(), bias=0):
    @st.composite
    def s(draw):
        mod, name = draw(st.sampled_from(all_inner(groups, skip)))
        vgen.BIAS = bias
        try:
            d = draw(inner_part(mod, name).strategy("thorough"))
        finally:
            vgen.BIAS = 0
        return [mod, name, d]
    return s()

OWN = ("isnan", "isinf", "isfinite", "signbit")     # numpy 1.26 is wrong here for some strided outputs, and pnumpy leaves the work to numpy under some settings

def run_inner(m, n, x, proxy, ctx):
    """the inner case's failures, without those numpy alone shows as well"""
    p = inner_part(m, n)
    fails = p.execute(x, proxy)
    if fails and any('"%s"' % o in json.dumps(x) for o in OWN):
        try:
            alone = {f.sig for f in p.execute(x, Proxy(ctx, kw={"mode": "plain"}))}
        except (vclient.TargetDied, vclient.TargetHung):
            alone = set()
        fails = [f for f in fails if f.sig not in alone]
    return fails

class Under(Part):
    groups = None
    skip = ()
    bias = 0
    def config(self, draw, tier):
        raise NotImplementedError
    def strategy(self, tier):
        @st.composite
        def s(draw):
            return {"cfg": self.config(draw, tier), "inner": draw(inner_strategy(tier, self.groups, self.skip, self.bias))}
        return s()
    def nontrivial(self, d):
        m, n, x = d["inner"]
        return inner_part(m, n).nontrivial(x)
    def edit(self, cfg):
        return lambda case: case
    def kwargs(self, cfg, part):
        return part.target
    def execute(self, d, ctx):
        m, n, x = d["inner"]
        p = inner_part(m, n)
        fails = run_inner(m, n, x, Proxy(ctx, self.edit(d["cfg"]), self.kwargs(d["cfg"], p)), ctx)
        return [Failure("%s.%s/%s" % (m, n, f.sig), "under %s: %s" % (json.dumps(d["cfg"])[:400], f.msg), f.finding) for f in fails]
