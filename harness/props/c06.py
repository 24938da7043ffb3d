"""C06: scans (accumulate, reduceat, at, outer) and operations whose output overlaps their inputs."""
import numpy as np
from hypothesis import strategies as st
import vgen, vcmp, vreduce, vufunc, vjudge, vexec
from vrun import Part, Failure
import props.c05 as c05

RULE = ("a case counts as non-trivial when the scanned array / the operands have at least 8 elements; distinct by the hash of its descriptor")
ASSUMPTIONS = ["the oracle is the same numpy version without pnumpy; accumulations must be equal bit for bit, reduceat of float add/multiply to rounding (as C05)"]

class Scan(c05.Reduce):
    name = "scan"
    examples = {"quick": 12000, "thorough": 100000}
    shards = {"quick": 4, "thorough": 8}
    kw = dict(methods=("accumulate", "reduceat"), funcs=vreduce.RED + vreduce.NONASSOC)

class At(Part):
    """ufunc.at with repeated indices, ufunc.outer, cumsum/cumprod"""
    name = "at"
    examples = {"quick": 5000, "thorough": 40000}
    shards = {"quick": 2, "thorough": 4}
    def strategy(self, tier):
        @st.composite
        def s(draw):
            op = draw(st.sampled_from(["at", "at", "outer", "cumsum", "cumprod", "diff"]))
            f = draw(st.sampled_from(vufunc.ARITH + (["negative", "absolute", "square"] if op == "at" else [])))
            dts = [x for x in vgen.HOOKED if not (f in vufunc.NOT_FLOAT and x[0] == "f")]
            if f in ("power", "true_divide", "floor_divide", "remainder", "left_shift", "right_shift"):
                dts = [x for x in dts if x in ("f4", "f8")] or ["u8", "i4"]
            dt = draw(st.sampled_from(dts))
            isf = np.dtype(dt).kind == "f"
            n = draw(vgen.lengths(0 if op in ("outer",) else 1, 2, 6))
            return {"op": op, "f": f, "dt": dt, "n": n, "m": draw(st.integers(0, 40)) if op == "outer" else draw(vgen.lengths(0, 1, 5)), "seed": draw(vgen.seeds),
                    "cls": draw(st.sampled_from(["moderate", "ints", "normal", "mixed"] if isf else ["small", "full", "nonneg"])), "lay": draw(vgen.layouts(1, broadcast=False))}
        return s()
    def nontrivial(self, d):
        return d["n"] >= 8
    def execute(self, d, ctx):
        c = vgen.Case()
        n = d["n"]
        a = c.place(vgen.values(d["dt"], n, d["cls"], d["seed"]), d["lay"])
        A = ("@A", a)
        w = []
        if d["op"] == "at":
            if n == 0:
                return []
            rng = np.random.default_rng([d["seed"], n])
            ix = rng.integers(-n, n, d["m"])
            if rng.random() < 0.5:
                ix = ix % max(1, n // 8)
            args = ["np.%s.at" % d["f"], A, ("@V", ix.astype("i8").tobytes(), "i8", (d["m"],))]
            if getattr(np, d["f"]).nin == 2:
                b = vgen.values(d["dt"], d["m"], d["cls"], d["seed"] + 1)
                args.append(("@V", b.tobytes(), vexec.descr_of(d["dt"]), (d["m"],)))
            k = c.step(*args)
            w = [a]
        elif d["op"] == "outer":
            if getattr(np, d["f"]).nin != 2:
                return []
            b = c.place(vgen.values(d["dt"], d["m"], d["cls"], d["seed"] + 1), {"o": [0], "s": [1], "p": 0, "al": 8})
            k = c.step("np.%s.outer" % d["f"], A, ("@A", b))
        else:
            k = c.step("np." + d["op"], A)
        case = c.case()
        got, want = ctx.both(case)
        s = "%s %s %s " % (d["op"], d["f"], d["dt"])
        sz = d["f"] not in ("minimum", "maximum")
        r = vcmp.diff_step(got["steps"][k], want["steps"][k], signed_zero=sz, tol=vjudge.near_ulps if d["f"] == "power" else None)
        if r:
            return [Failure(s + r.kind, s + r.msg)]
        if want["steps"][k][0] == "ok":
            for i in w:
                g, x = vcmp.written_elements(got, want, case, i)
                m = vcmp.mismatch_mask(g, x, sz)
                if m.any():
                    j = int(np.flatnonzero(m)[0])
                    return [Failure(s + "value", s + "element %d is %r, expected %r" % (j, g[j], x[j]))]
            m = vcmp.diff_mem(got, want, case, w)
            if m:
                return [Failure(s + "memory", s + m.msg)]
        return []

class Overlap(Part):
    name = "overlap"
    examples = {"quick": 12000, "thorough": 100000}
    shards = {"quick": 4, "thorough": 8}
    nontrivial = staticmethod(vjudge.nontrivial)
    def strategy(self, tier):
        @st.composite
        def s(draw):
            nin = draw(st.sampled_from([2, 2, 1]))
            fs = vufunc.ARITH + ["minimum", "maximum", "add", "subtract"] if nin == 2 else vufunc.UNARY
            d = draw(vufunc.ufunc_desc(fs, nin, vgen.HOOKED, big=2, mixed=False, outs=False, extra=False))
            j = draw(st.integers(0, nin - 1))
            k = draw(st.sampled_from(["ov", "ov", "in0", "in1" if nin == 2 else "in0"]))
            d["out"] = {"k": k}
            if k == "ov":
                d["out"] = {"k": "ov", "of": j, "sh": draw(st.one_of(st.sampled_from([1, -1, 2, -2, 3, -3, 4, 7, 8, -8, 15, -15, 16, 31, 32, 33, 63, 64, 65, 100]), st.integers(-200, 200)))}
                if len(d["shape"]) != 1:
                    d["shape"] = [max(d["shape"])]
                    for i in d["in"]:
                        i["lay"] = {"o": [0], "s": [i["lay"]["s"][0]], "p": i["lay"]["p"], "al": i["lay"]["al"]}
                d["in"][j]["kind"] = "arr"
                if nin == 2 and draw(st.booleans()):
                    d["same"] = True      # both operands are views of the same block
            return d
        return s()
    def execute(self, d, ctx):
        return vjudge.judge(d, ctx)

class Window(Part):
    """several views of one block: c[i:] = f(a-window, b-window) with every mutual offset"""
    name = "windows"
    examples = {"quick": 8000, "thorough": 60000}
    shards = {"quick": 2, "thorough": 6}
    def strategy(self, tier):
        @st.composite
        def s(draw):
            f = draw(st.sampled_from(vufunc.ARITH + vufunc.COMPARE + ["add", "subtract", "multiply"]))
            dts = [x for x in vgen.HOOKED if not (f in vufunc.NOT_FLOAT and x[0] == "f")]
            dt = draw(st.sampled_from(dts))
            n = draw(vgen.lengths(1, 2, 6))
            off = st.one_of(st.sampled_from([0, 0, 1, 2, 3, 8]), st.integers(0, 130))
            steps = draw(st.sampled_from([[1, 1, 1]] * 4 + [[-1, 1, 1], [1, -1, 1], [1, 1, -1], [2, 1, 1], [1, 1, 2], [2, 2, 2]]))
            isf = np.dtype(dt).kind == "f"
            return {"f": f, "dt": dt, "n": n, "off": [draw(off) for _ in range(3)], "st": steps, "seed": draw(vgen.seeds), "al": draw(st.integers(0, 63)),
                    "byte": draw(st.sampled_from([0] * 6 + [1, 2, 4])), "cls": draw(st.sampled_from(vgen.FCLS if isf else vgen.ICLS)),
                    "how": draw(st.sampled_from(["ufunc"] * 4 + ["where"]))}
        return s()
    def nontrivial(self, d):
        return d["n"] >= 8
    def execute(self, d, ctx):
        c = vgen.Case()
        dt = np.dtype(d["dt"]); n = d["n"]; it = dt.itemsize
        need = max(o + abs(s) * max(n, 1) for o, s in zip(d["off"], d["st"])) + 1
        base = c.place(vgen.values(dt, need, d["cls"], d["seed"]), {"o": [0], "s": [1], "p": 0, "al": d["al"]})
        v = []
        for i, (o, s) in enumerate(zip(d["off"], d["st"])):
            byte = d["byte"] % it if i == 2 else 0      # the output may start in the middle of an element
            odt = dt
            if i == 2:
                r = vufunc.result_dtype(d["f"], [dt, dt])
                odt = r if r is not None and r.itemsize <= it else dt
            start = o * it + byte + (abs(s) * it * max(n - 1, 0) if s < 0 else 0)
            v.append(c.alias(base, (n,), (s * it,), start, dtype=vexec.descr_of(odt)))
        kw = {"out": ("@A", v[2]), "casting": "unsafe"}
        if d["how"] == "where":
            kw["where"] = ("@V", vgen.values("?", n, "mixed", d["seed"]).tobytes(), "?", (n,))
        k = c.step("np." + d["f"], ("@A", v[0]), ("@A", v[1]), **kw)
        case = c.case()
        got, want = ctx.both(case)
        s = "%s %s " % (d["f"], d["dt"])
        g, w = got["steps"][k], want["steps"][k]
        sz = d["f"] not in ("minimum", "maximum")
        r = vcmp.diff_step(g, w, signed_zero=sz, tol=vjudge.near_ulps if d["f"] == "power" else None)
        if r:
            return [Failure(s + r.kind, s + r.msg)]
        if w[0] == "ok":
            m = vcmp.diff_mem(got, want, case, [v[2]])
            if m:
                return [Failure(s + "memory", s + m.msg)]
        return []
PARTS = [Scan(), At(), Overlap(), Window()]
