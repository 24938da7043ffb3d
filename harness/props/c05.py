"""C05: reductions equal plain numpy (exactly where the operation is exact, else to rounding)."""
import numpy as np
from hypothesis import strategies as st
import vgen, vcmp, vreduce
from vrun import Part, Failure

RULE = "a case counts as non-trivial when the reduced array has at least 8 elements; distinct by the hash of its descriptor"
ASSUMPTIONS = ["the oracle is the same numpy version without pnumpy; float sums and products may be associated differently: accepted within "
               "eps*(2*sqrt(n)+8)*sum|x| (products: eps*(4*sqrt(n)+16+n/12) relative); data classes 'ints' and 'needle' are exact and must be equal",
               "which of 0.0 and -0.0 minimum/maximum return is unspecified"]

def judge(d, ctx):
    fails = judge_once(d, ctx)
    if fails and d["f"] in vreduce.NONASSOC and "bufsize" not in d:
        # numpy's own result of a non-associative reduction can depend on the size of its buffer, which pnumpy sets (documented)
        fails = judge_once(dict(d, bufsize=8192 * 1024), ctx)
    return fails

def judge_once(d, ctx):
    case, k, outk, view, kw = vreduce.build(d)
    got, want = ctx.both(case)
    tol = vreduce.tolerance(d, view, kw)
    r = vcmp.diff_step(got["steps"][k], want["steps"][k], signed_zero=False, tol=tol)
    s = "%s.%s %s axis=%s ndim=%d " % (d["f"], d["m"], d["dt"], d["axis"], len(d["shape"]))
    if r:
        return [Failure(s + r.kind, s + r.msg)]
    if want["steps"][k][0] == "ok":
        if outk is not None and tol is None:
            pass
        m = vcmp.diff_mem(got, want, case, [outk] if outk is not None else [])
        if m:
            return [Failure(s + "memory", s + m.msg)]
    return []

class Reduce(Part):
    name = "reduce"
    examples = {"quick": 18000, "thorough": 150000}
    shards = {"quick": 6, "thorough": 8}
    kw = dict(methods=("reduce",))
    def strategy(self, tier):
        return vreduce.reduce_desc(**self.kw)
    def nontrivial(self, d):
        return int(np.prod(d["shape"])) >= 8
    def execute(self, d, ctx):
        return judge(d, ctx)

class NonAssoc(Reduce):
    name = "nonassociative"
    examples = {"quick": 5000, "thorough": 40000}
    shards = {"quick": 2, "thorough": 4}
    kw = dict(methods=("reduce",), funcs=vreduce.NONASSOC, big=4)

class Chains(Part):
    """sum, prod, min, max, mean, any, all, ptp as users call them"""
    name = "functions"
    examples = {"quick": 5000, "thorough": 40000}
    shards = {"quick": 2, "thorough": 4}
    def strategy(self, tier):
        @st.composite
        def s(draw):
            name = draw(st.sampled_from(["np.sum", "np.prod", "np.min", "np.max", "np.all", "np.any", "np.mean", "np.ptp", ".sum", ".min", ".max", ".any", ".all", ".mean",
                                         "np.count_nonzero", "np.nansum", "np.nanmax", "np.nanmin", "np.var"]))
            f = {"sum": "add", "prod": "multiply", "min": "minimum", "max": "maximum", "all": "logical_and", "any": "logical_or", "mean": "add", "ptp": "maximum",
                 "count_nonzero": "logical_or", "nansum": "add", "nanmax": "maximum", "nanmin": "minimum", "var": "add"}[name.split(".")[-1]]
            d = draw(vreduce.reduce_desc(funcs=[f], npf=True))
            for x in ("initial", "where", "dtype", "out", "bufsize"):
                d.pop(x, None)
            d["name"] = name
            if name.endswith("var"):
                d["cls"] = "normal" if np.dtype(d["dt"]).kind == "f" else "small"
            return d
        return s()
    def nontrivial(self, d):
        return int(np.prod(d["shape"])) >= 8
    def execute(self, d, ctx):
        c = vgen.Case()
        v = vreduce.vals(d)
        k = c.place(v, d["lay"])
        ax = d["axis"]
        kw = {"axis": ("@T", ax) if isinstance(ax, list) else ax}
        if "keepdims" in d:
            kw["keepdims"] = True
        st_ = c.step(d["name"], ("@A", k), **kw)
        case = c.case()
        got, want = ctx.both(case)
        tail = d["name"].split(".")[-1]
        if tail in ("var", "mean") and np.dtype(d["dt"]).kind != "f":
            td = dict(d, dt="f8", cls="normal")
        else:
            td = d
        tol = vreduce.tolerance(dict(td, cls="normal") if tail in ("mean", "var") else td, c.views[k], kw)
        r = vcmp.diff_step(got["steps"][st_], want["steps"][st_], signed_zero=False, tol=tol)
        s = "%s %s axis=%s ndim=%d " % (d["name"], d["dt"], d["axis"], len(d["shape"]))
        if r:
            return [Failure(s + r.kind, s + r.msg)]
        m = vcmp.diff_mem(got, want, case, [])
        return [Failure(s + "memory", s + m.msg)] if m else []
PARTS = [Reduce(), NonAssoc(), Chains()]
