"""C04: transcendental ufuncs: special values exactly, everything else to a few units in the last place."""
import numpy as np
from hypothesis import strategies as st
import vgen, vufunc, vjudge
from vjudge import RULE  # noqa
from props.c01 import Binary
ASSUMPTIONS = ["accuracy bound: 8 ulp of the loop's precision against plain numpy (sin, cos: 16 ulp of max(|result|, ulp(1)*|argument|)); NaN, infinities, "
               "signs of zero and dtypes must match exactly"]

def tol_for(f, views, dts):
    ldt = vufunc.result_dtype(f, dts)
    view = views[0]
    eps = float(np.finfo(ldt).eps) if ldt is not None and ldt.kind == "f" else 0.0
    tiny = float(np.finfo(ldt).smallest_subnormal) if ldt is not None and ldt.kind == "f" else 0.0
    def tol(g, w):
        if g.dtype.kind != "f" or g.shape != view.shape:
            return np.zeros(g.shape, bool)
        with np.errstate(all="ignore"):
            ld = np.longdouble
            G, W = g.astype(ld), w.astype(ld)
            scale = np.abs(W)
            C = 8
            if f in ("sin", "cos"):
                scale = np.maximum(scale, eps * np.abs(view.astype(ld)))
                C = 16
            return np.isfinite(g) & np.isfinite(w) & (np.abs(G - W) <= C * eps * scale + 2 * tiny)
    return tol

class Trig(Binary):
    name = "transcendental"
    def strategy(self, tier):
        @st.composite
        def s(draw):
            d = draw(vufunc.ufunc_desc(vufunc.TRIG + ["exp", "log", "sin", "cos"], 1, ["f4", "f8", "f4", "f8", "f4", "f8", "i4", "f2", "i1", "?"], big=2))
            d["in"][0]["cls"] = "t:" + draw(st.sampled_from(vgen.TCLS))
            return d
        return s()
    def execute(self, d, ctx):
        return vjudge.judge(d, ctx, tol=tol_for)
PARTS = [Trig()]
