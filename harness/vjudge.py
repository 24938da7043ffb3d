"""Differential judgement of one ufunc call: value, dtype, shape, exception and every byte of memory."""
import numpy as np
import vgen, vcmp, vufunc
from vrun import Part, Failure

def big(d):
    return max(d["shape"] + [0]) >= 65536

def nontrivial(d):
    """something beyond the scalar tail: at least 8 elements, or an unusual layout, or an out argument"""
    n = 1
    for x in d["shape"]:
        n *= x
    return n >= 8 or (n > 0 and (d.get("out") is not None or any(i["lay"]["s"] != [1] * len(d["shape"]) for i in d["in"])))

def near_ulps(g, w):
    """numpy's own float power takes its SVML or its libm loop depending on how the operands happen to lie in memory"""
    if g.dtype.kind != "f":
        return np.zeros(g.shape, bool)
    with np.errstate(all="ignore"):
        return np.isfinite(g) & np.isfinite(w) & (np.abs(g - w) <= 4 * np.spacing(np.abs(w)))

def judge(d, ctx, tol=None, run=None):
    case, k, outk, views = vufunc.build(d)
    got = run(case) if run else ctx.run(case)
    want = ctx.ref(case)
    # which of -0.0 / 0.0 minimum and maximum return is unspecified
    sz = d["f"] not in ("minimum", "maximum")
    t = tol(d["f"], views, [i["dt"] for i in d["in"]]) if tol else None
    if t is None and d["f"] == "power":
        t = near_ulps
    r = vcmp.diff_step(got["steps"][k], want["steps"][k], signed_zero=sz, tol=t)
    s = "%s %s out=%s " % (d["f"], ",".join(str(i["dt"]) for i in d["in"]), (d["out"] or {}).get("k"))
    if r:
        m = r.msg
        if r.mask is not None and r.mask.any():
            j = int(np.flatnonzero(r.mask.ravel())[0])
            m += " for operands %s" % [repr(np.ravel(v)[j if np.size(v) == r.mask.size else 0]) for v in views]
        return [Failure(s + r.kind, s + m)]
    if want["steps"][k][0] == "ok":
        m = vcmp.diff_mem(got, want, case, [outk] if outk is not None else [])
        if m:
            return [Failure(s + "memory", s + m.msg)]
    return []

RULE = ("a case counts as non-trivial when it has at least 8 elements (so that a vector or threaded loop can run) "
        "or a non-contiguous operand or an out= argument with at least one element; distinct by the hash of its descriptor")
