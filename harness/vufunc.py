"""Differential ufunc cases shared by several properties."""
import numpy as np
from hypothesis import strategies as st
import vexec, vgen, vcmp

ARITH = ["add", "subtract", "multiply", "true_divide", "floor_divide", "minimum", "maximum", "power", "remainder",
         "logical_and", "logical_or", "bitwise_and", "bitwise_or", "bitwise_xor", "left_shift", "right_shift"]
COMPARE = ["equal", "not_equal", "greater", "greater_equal", "less", "less_equal"]
UNARY = ["absolute", "signbit", "fabs", "invert", "floor", "ceil", "trunc", "rint", "negative", "positive", "sign",
         "sqrt", "square", "reciprocal", "logical_not", "isinf", "isnan", "isfinite"]
TRIG = ["sin", "cos", "tan", "arcsin", "arccos", "arctan", "sinh", "cosh", "tanh", "arcsinh", "arccosh", "arctanh", "cbrt",
        "exp", "exp2", "expm1", "log", "log2", "log10", "log1p"]
NOT_FLOAT = {"bitwise_and", "bitwise_or", "bitwise_xor", "left_shift", "right_shift", "invert"}

@st.composite
def shapes(draw, big=1, mid=2, small=6, nd2=True):
    if nd2 and draw(st.integers(0, 6)) == 0:
        k = draw(st.integers(0, 2))
        if k == 0:
            return [draw(st.sampled_from([1, 2, 3, 7, 16, 33])), draw(vgen.lengths(0, 1, 6))]
        if k == 1:
            return [draw(vgen.lengths(0, 1, 6)), draw(st.sampled_from([1, 2, 3, 5, 9, 17]))]
        return [draw(st.integers(1, 4)), draw(st.integers(1, 9)), draw(st.integers(1, 40))]
    return [draw(vgen.lengths(big, mid, small))]

@st.composite
def ufunc_desc(draw, funcs, nin, dtypes, big=1, mid=2, small=6, mixed=True, outs=True, extra=True, nd2=True):
    f = draw(st.sampled_from(funcs))
    dts = [d for d in dtypes if not (f in NOT_FLOAT and d[0] == "f")]
    dt = draw(st.sampled_from(dts))
    shape = draw(shapes(big, mid, small, nd2))
    nd = len(shape)
    ins = []
    for i in range(nin):
        d = dt if (i == 0 or not mixed or draw(st.integers(0, 7))) else draw(st.sampled_from(dts))
        k = np.dtype(d).kind
        cls = draw(st.sampled_from(vgen.FCLS if k == "f" else vgen.ICLS))
        kind = "arr"
        if nin == 2:
            kind = draw(st.sampled_from(["arr"] * 6 + ["sc", "0d", "one"] + (["same", "first"] if i and ins[0]["kind"] == "arr" else [])))
            if kind in ("same", "first"):     # the first operand once more: the same array, or its first element everywhere
                d = ins[0]["dt"]
        ins.append({"dt": d, "cls": cls, "seed": draw(vgen.seeds), "lay": draw(vgen.layouts(nd)), "kind": kind})
    if all(i["kind"] != "arr" for i in ins):
        ins[0]["kind"] = "arr"
    out = None
    if outs:
        o = draw(st.sampled_from(["none"] * 4 + ["new", "new", "in0", "in1", "ov"]))
        if o == "new":
            out = {"k": "new", "lay": draw(vgen.layouts(nd, broadcast=False)), "dt": draw(st.sampled_from(["same", "same", "same", "same", "f8"]))}
        elif o == "in0" or (o == "in1" and nin == 1):
            out = {"k": "in0"}
        elif o == "in1":
            out = {"k": "in1"}
        elif o == "ov":
            of = [j for j in range(nin) if ins[j]["kind"] not in ("same", "first")]
            out = {"k": "ov", "of": draw(st.sampled_from(of)), "sh": draw(st.sampled_from([1, -1, 2, -2, 3, -3, 4, 7, 8, -8, 16, 100]))}
    d = {"f": f, "shape": shape, "in": ins, "out": out}
    if extra and draw(st.integers(0, 9)) == 0:
        d["where"] = draw(vgen.seeds)
    return d

def result_dtype(f, in_dts):
    u = getattr(np, f)
    try:
        return u.resolve_dtypes(tuple(np.dtype(d) for d in in_dts) + (None,) * u.nout)[-1]
    except Exception:
        return None

def build(d):
    """-> (case, step index, out arr index or None, input views)"""
    c = vgen.Case()
    shape = tuple(d["shape"])
    n = int(np.prod(shape))
    args, views = [], []
    rdt = None
    of = d["out"] or {}
    for j, i in enumerate(d["in"]):
        dt = np.dtype(i["dt"])
        if i["kind"] in ("same", "first"):
            k = args[0][1]
            if i["kind"] == "first" and n:
                k = c.alias(k, shape, (0,) * len(shape), c.arrs[k][4])
            args.append(("@A", k)); views.append(c.views[k])
        elif i["kind"] == "arr":
            lay = i["lay"]
            if of.get("k") in ("in0", "in1") and of["k"] == "in%d" % j and 0 in lay["s"]:
                lay = dict(lay, s=[x or 1 for x in lay["s"]])
            if of.get("k") == "ov" and of["of"] == j and len(shape) == 1:
                # one block holding both the input and the shifted output
                sh = of["sh"]
                m = n + abs(sh)
                vals = vgen.values(dt, m, i["cls"], i["seed"])
                base = c.place(vals, dict(lay, s=[x or 1 for x in lay["s"]]))
                sp = c.arrs[base]
                st_ = sp[3][0]
                k = c.alias(base, (n,), (st_,), sp[4] + (max(-sh, 0)) * st_)
                of["_out"] = (base, sp[4] + (max(sh, 0)) * st_, st_)
                args.append(("@A", k)); views.append(c.views[k])
                continue
            vals = vgen.values(dt, n, i["cls"], i["seed"]).reshape(shape)
            k = c.place(vals, lay)
            args.append(("@A", k)); views.append(c.views[k])
        else:
            vals = vgen.values(dt, 1, i["cls"], i["seed"])
            if i["kind"] == "sc":
                args.append(("@S", vals.tobytes(), vexec.descr_of(dt))); views.append(vals[0])
            elif i["kind"] == "0d":
                k = c.place(vals.reshape(()), {"o": [], "s": [], "p": 0, "al": i["lay"]["al"]})
                args.append(("@A", k)); views.append(vals[0])
            else:
                k = c.place(vals.reshape((1,) * len(shape)), {"o": list(range(len(shape))), "s": [1] * len(shape), "p": 0, "al": i["lay"]["al"]})
                args.append(("@A", k)); views.append(vals.reshape((1,) * len(shape)))
    kw = {}
    outk = None
    if of:
        rdt = result_dtype(d["f"], [i["dt"] for i in d["in"]])
        if rdt is None:
            rdt = np.dtype("f8")
        if of["k"] == "new":
            odt = rdt if of["dt"] == "same" else np.dtype(of["dt"])
            init = vgen.values(odt, n, "full" if odt.kind in "iu" else "mixed", 99).reshape(shape)
            outk = c.place(init, of["lay"])
        elif of["k"] in ("in0", "in1"):
            a = args[int(of["k"][2])]
            if a[0] == "@A" and c.arrs[a[1]][2] == shape:
                if of["k"] in ("in0",) or True:
                    outk = a[1]
        elif of["k"] == "ov" and "_out" in of:
            base, off, st_ = of.pop("_out")
            odt = np.dtype(c.arrs[base][1])
            if True:
                outk = c.alias(base, shape, (st_,), off)
        if outk is not None:
            kw["out"] = ("@A", outk)
            kw["casting"] = "unsafe" if of.get("dt") else "same_kind"
    # numpy copies an overlapping operand back as a whole, mask or not: nothing to compare there for the replaced predicates
    if "where" in d and not (of.get("k") in ("ov", "in0", "in1") and d["f"] in ("isnan", "isinf", "isfinite", "signbit")):
        w = vgen.values("?", n, "mixed", d["where"]).reshape(shape)
        kw["where"] = ("@V", w.tobytes(), "?", shape)
        if outk is None:
            rdt = result_dtype(d["f"], [i["dt"] for i in d["in"]]) or np.dtype("f8")
            outk = c.place(vgen.values(rdt, n, "full" if rdt.kind in "iu" else "mixed", 98).reshape(shape),
                           {"o": list(range(len(shape))), "s": [1] * len(shape), "p": 0, "al": 0})
            kw["out"] = ("@A", outk)
    pre = d.get("pre", [])
    for s in pre:
        c.step("@only" + s[0], *s[1:])
    k = c.step("np." + d["f"], *args, **kw)
    for s in d.get("post", []):
        c.step("@only" + s[0], *s[1:])
    return c.case(), k, outk, views
