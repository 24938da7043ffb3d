"""reduce / accumulate / reduceat / outer / at cases."""
import numpy as np
from hypothesis import strategies as st
import vexec, vgen, vcmp, vufunc

RED = ["add", "multiply", "minimum", "maximum", "logical_and", "logical_or", "bitwise_and", "bitwise_or", "bitwise_xor"]
NONASSOC = ["subtract", "true_divide", "floor_divide", "power", "remainder", "left_shift", "right_shift"]
NPF = {"np.sum": "add", "np.prod": "multiply", "np.min": "minimum", "np.max": "maximum", "np.all": "logical_and", "np.any": "logical_or",
       "np.mean": "add", "np.cumsum": "add", "np.cumprod": "multiply", "np.ptp": "maximum"}

@st.composite
def reduce_desc(draw, methods=("reduce",), funcs=RED, dtypes=None, big=3, mid=2, small=4, npf=True):
    meth = draw(st.sampled_from(list(methods)))
    f = draw(st.sampled_from(funcs))
    dts = [d for d in (dtypes or vgen.HOOKED) if not (f in vufunc.NOT_FLOAT and d[0] == "f")]
    dt = draw(st.sampled_from(dts))
    isf = np.dtype(dt).kind == "f"
    nd = draw(st.sampled_from([1, 1, 1, 1, 2, 2, 3]))
    if nd == 1:
        shape = [draw(vgen.lengths(big, mid, small))]
    elif nd == 2:
        a = draw(vgen.lengths(1, 2, 4)); b = draw(st.integers(1, 6))
        shape = [a, b] if draw(st.booleans()) else [b, a]
    else:
        shape = [draw(st.integers(1, 4)), draw(st.integers(1, 12)), draw(st.integers(1, 40))]
    if f in ("add", "multiply") and isf:
        cls = draw(st.sampled_from(["normal", "moderate", "ints", "ints", "needle", "onespecial", "near1"]))
    elif f == "multiply":
        cls = draw(st.sampled_from(["odd", "odd", "needle", "small", "full"]))
    elif f in ("add", "subtract"):
        cls = draw(st.sampled_from(vgen.ICLS))
    else:
        cls = draw(st.sampled_from((vgen.FCLS if isf else vgen.ICLS) + ["needle"] * 6))
    d = {"m": meth, "f": f, "dt": dt, "shape": shape, "cls": cls, "seed": draw(vgen.seeds), "lay": draw(vgen.layouts(nd)),
         "axis": draw(st.sampled_from([None] + list(range(nd)) if meth == "reduce" else list(range(nd))))}
    if meth == "reduce":
        if nd > 1 and draw(st.integers(0, 3)) == 0:
            d["axis"] = list(draw(st.sampled_from([(0, 1), (0,), (1,)] + ([(0, 2), (1, 2), (0, 1, 2)] if nd == 3 else []))))
        if draw(st.integers(0, 5)) == 0:
            d["initial"] = draw(vgen.seeds)
        if draw(st.integers(0, 6)) == 0:
            d["where"] = draw(vgen.seeds)
            if f not in ("add", "multiply", "logical_and", "logical_or", "bitwise_or", "bitwise_xor", "bitwise_and"):
                d.setdefault("initial", 3)
        if draw(st.integers(0, 6)) == 0:
            d["keepdims"] = True
    if draw(st.integers(0, 8)) == 0 and not (isf and f in vufunc.NOT_FLOAT):
        d["dtype"] = draw(st.sampled_from(["f8", "i8", "f4"] if f not in vufunc.NOT_FLOAT else ["i8"]))
        if isf:
            d["dtype"] = "f8"
    if meth == "reduceat":
        d["idx"] = draw(vgen.seeds)
    if meth == "reduce" and draw(st.integers(0, 9)) == 0:
        d["bufsize"] = draw(st.sampled_from([16, 1024, 65536, 131072]))
    if meth in ("reduce", "accumulate") and draw(st.integers(0, 4)) == 0:
        d["out"] = draw(st.sampled_from([1, 2, -1]))
    return d

def needle(dt, n, f, seed):
    """every element neutral for f except (at most) one, whose loss or repetition changes the result"""
    rng = np.random.default_rng([seed, n, 9])
    dt = np.dtype(dt)
    isf, isb = dt.kind == "f", dt.kind == "b"
    lo, hi = (-np.inf, np.inf) if isf else (0, 1) if isb else (np.iinfo(dt).min, np.iinfo(dt).max)
    if f == "add":
        base, odd = 0, 1 if isb else 77
    elif f == "multiply":
        base, odd = 1, 0 if isb else rng.choice([3, -1 if lo < 0 else 5])
    elif f == "minimum":
        base, odd = (1 if isb else 100), 0 if isb else rng.choice(np.array([3, lo], object))
    elif f == "maximum":
        base, odd = 0, 1 if isb else rng.choice(np.array([3, hi], object))
    elif f in ("logical_and", "bitwise_and"):
        base, odd = (1 if isb or isf or f[0] == "l" else (-1 if lo < 0 else hi)), 0
    else:
        base, odd = 0, (1 if isb or isf else rng.choice(np.array([1, 64, hi // 2 + 1], object)))
    v = np.full(n, base, dt)
    if n and rng.random() < 0.9:
        at = rng.choice([rng.integers(0, n), n - 1 - rng.integers(0, min(n, 70)), rng.integers(0, min(n, 70))])
        v[at] = dt.type(odd)
        if isf and f in ("minimum", "maximum") and rng.random() < 0.2:
            v[at] = np.nan
    return v

def vals(d):
    n = int(np.prod(d["shape"]))
    f, dt = d["f"], np.dtype(d["dt"])
    rdt = np.dtype(d.get("dtype") or dt)
    rng = np.random.default_rng([d["seed"], n, 3])
    if d["cls"] == "needle":
        v = needle(dt, n, f, d["seed"])
    elif d["cls"] == "near1":
        v = (1.0 + rng.uniform(-1, 1, n) / (64 + n / 16)).astype(dt)
    elif d["cls"] == "odd":
        v = vgen.values(dt, n, "full", d["seed"])
        if dt.kind in "iu":
            v = v | dt.type(1)
            if n and rng.random() < 0.5:
                v[rng.integers(0, n, min(n, 3))] &= dt.type(6)
    else:
        v = vgen.values(dt, n, d["cls"], d["seed"])
    if f == "multiply" and rdt.kind == "f" and d["cls"] not in ("needle", "near1"):
        # keep products in range
        if d["cls"] == "ints" or dt.kind != "f":     # exact: signs and a few powers of two
            w = np.ones(n)
            if dt.kind != "b" and dt.kind != "u":
                w[rng.random(n) < 0.3] = -1
            k = rng.integers(0, max(n, 1), min(n, 100))
            w[k] *= 2.0 if dt.kind != "f" else rng.choice([0.5, 2.0], len(k))
            if dt.kind != "f" and len(k) > 60:
                w[k[60:]] = 1
            v = w.astype(dt)
        else:
            fin = np.isfinite(v) & (v != 0) & (np.abs(v) > 1e-30) & (np.abs(v) < 1e30)
            e = (rng.uniform(-0.5, 0.5, n) * min(1.0, 16.0 / np.sqrt(n + 1)))
            with np.errstate(all="ignore"):
                v = np.where(fin, np.sign(v) * np.exp2(e), np.where(np.isfinite(v) & (v != 0), 1, v)).astype(dt)
                if 0 in d["lay"]["s"]:
                    v = np.where(np.isfinite(v), np.sign(v), v).astype(dt)
    elif f == "add" and rdt.kind == "f" and d["cls"] == "onespecial":
        # a huge value would make every rounding difference of the rest invisible
        with np.errstate(all="ignore"):
            v = np.where(np.isfinite(v) & (np.abs(v) > 1e6), 2.5, v).astype(dt)
    return v.reshape(d["shape"])

def build(d):
    c = vgen.Case()
    v = vals(d)
    k = c.place(v, d["lay"])
    kw = {}
    ax = d.get("axis")
    kw["axis"] = ("@T", ax) if isinstance(ax, list) else ax
    if "keepdims" in d:
        kw["keepdims"] = True
    if "initial" in d:
        iv = vgen.values(d["dt"], 1, "small" if np.dtype(d["dt"]).kind in "iu" else "moderate", d["initial"])
        if d["cls"] in ("ints", "needle") and iv.dtype.kind == "f":
            iv = np.array([2.0 if d["initial"] % 2 else -1.0], iv.dtype)      # keeps the result exact
        kw["initial"] = ("@S", iv.tobytes(), vexec.descr_of(iv.dtype))
    if "where" in d:
        w = vgen.values("?", v.size, "mixed", d["where"]).reshape(v.shape)
        kw["where"] = ("@V", w.tobytes(), "?", v.shape)
    if "dtype" in d:
        kw["dtype"] = ("@D", d["dtype"])
    if "bufsize" in d:
        old = c.step("np.setbufsize", d["bufsize"])
    args = [("@A", k)]
    if d["m"] == "reduceat":
        n = d["shape"][d["axis"]]
        rng = np.random.default_rng([d["idx"], n])
        m = int(rng.integers(1, 9))
        ix = rng.integers(0, max(n, 1), m)
        if rng.random() < 0.5:
            ix = np.sort(ix)
        args.append(("@V", ix.astype("i8").tobytes(), "i8", (m,)))
    outk = None
    if "out" in d:
        # shape of the output
        u = getattr(np, d["f"])
        try:
            with np.errstate(all="ignore"):
                kk = {a: b for a, b in kw.items() if a not in ("where", "dtype", "initial")}
                if isinstance(ax, list):
                    kk["axis"] = tuple(ax)
                if d["m"] == "reduce":
                    shp = np.add.reduce(np.broadcast_to(np.float64(0), d["shape"]), **kk).shape
                else:
                    shp = tuple(d["shape"])
            r = u.resolve_dtypes((np.dtype(d["dt"]),) * 2 + (None,), reduction=True)[-1] if d["m"] == "reduce" else None
        except Exception:
            r = None
            shp = None
        odt = np.dtype(d["dtype"]) if "dtype" in d else (r if r is not None else np.dtype(d["dt"]))
        if shp is not None:
            nd = len(shp)
            outk = c.place(vgen.values(odt, int(np.prod(shp)), "mixed", 4).reshape(shp),
                           {"o": list(range(nd)), "s": [d["out"]] + [1] * (nd - 1) if nd else [], "p": 0, "al": 0})
            kw["out"] = ("@A", outk)
    for s in d.get("pre", []):
        c.step("@only" + s[0], *s[1:])
    st_ = c.step("np.%s.%s" % (d["f"], d["m"]), *args, **kw)
    for s in d.get("post", []):
        c.step("@only" + s[0], *s[1:])
    if "bufsize" in d:
        c.step("np.setbufsize", ("@R", old))       # pnumpy sets its own size when it starts
    return c.case(), st_, outk, c.views[k], kw

def tolerance(d, view, kw):
    """accept floating rounding differences of reassociated add / multiply, element by element of the result"""
    f, dt = d["f"], np.dtype(d["dt"])
    rdt = np.dtype(d.get("dtype") or dt)
    if f not in ("add", "multiply") or rdt.kind != "f" or d["m"] == "accumulate" or d["cls"] in ("ints", "needle"):
        return None
    n = max(int(np.prod(d["shape"])), 1)
    eps = float(np.finfo(rdt).eps)
    v = view.astype("f8")
    # rounding errors accumulate like sqrt(n), but all in one direction when one value is repeated
    roots = n + 8 if 0 in d["lay"]["s"] else 2 * np.sqrt(n) + 8
    if f == "add":
        with np.errstate(all="ignore"):
            a = np.where(np.isfinite(v), np.abs(v), 0)
        k = {x: y for x, y in kw.items() if x in ("axis", "keepdims")}
        if d["m"] == "reduceat":
            k = {}
        if isinstance(k.get("axis"), tuple):
            k["axis"] = tuple(k["axis"][1])
        bound = eps * (a.sum(**k) + 8) * roots
        def tol(g, w):
            with np.errstate(all="ignore"):
                return np.isfinite(g) & np.isfinite(w) & (np.abs(g.astype("f8") - w.astype("f8")) <= bound)
        return tol
    # (a running product that lingers on one side of a power of two rounds with a bias: the linear term)
    def tol(g, w):
        with np.errstate(all="ignore"):
            return np.isfinite(g) & np.isfinite(w) & (np.abs(g.astype("f8") / w.astype("f8") - 1) <= eps * 2 * (roots + n / 24))
    return tol
