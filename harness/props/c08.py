"""C08: argsort and lexsort return a sorting (and, where promised, stable) permutation."""
import numpy as np
from hypothesis import strategies as st
import vgen, vcmp, vsort, vexec
from vrun import Part, Failure
from props.c07 import info, Sort

RULE = "a case counts as non-trivial when the sorted axis has at least 17 elements or several keys or a non-contiguous layout; distinct by the hash of its descriptor"
ASSUMPTIONS = ["the oracle for keys is the same numpy version without pnumpy; for unstable kinds any permutation that sorts is accepted"]

class ArgSort(Sort):
    name = "argsort"
    examples = {"quick": 5000, "thorough": 90000}
    shards = {"quick": 4, "thorough": 8}
    ops = [".argsort", "np.argsort", "pn.argsort"]
    def execute(self, d, ctx):
        c = vgen.Case()
        k = vsort.place(c, d, d["shape"], d["lay"])
        kw = {"axis": d["axis"]}
        if d["kind"]:
            kw["kind"] = d["kind"]
        s = c.step(d["op"], ("@A", k), **kw)
        case = c.case()
        got = ctx.run(case)
        want = ctx.ref(dict(case, steps=[(a.replace("pn.", "np."), b, cc) for a, b, cc in case["steps"]]))
        g, w = got["steps"][s], want["steps"][s]
        sig = "%s %s " % (d["op"], d["dt"])
        if g[0] != w[0]:
            return [Failure(sig + "outcome", info(d) + str(g[:3]) + str(w[:3]))]
        if g[0] == "ok":
            if g[1][1] != w[1][1]:
                return [Failure(sig + "type", info(d) + str(g[1][:3]))]
            r = vsort.check_argsort(c.views[k], vcmp.unpack(g[1]), d["axis"], d["kind"] in ("stable", "mergesort"), vcmp.unpack(w[1]))
            if r:
                return [Failure(sig + r.split(":")[0], info(d) + r)]
        m = vcmp.diff_mem(got, want, case, [])
        return [Failure(sig + "memory", info(d) + m.msg)] if m else []

class ArgBig(ArgSort):
    name = "argsort_parallel"
    examples = {"quick": 900, "thorough": 15000}
    shards = {"quick": 4, "thorough": 8}
    kw = dict(dtypes=["?"] + vgen.INTS + ["f4", "f8", "S1", "S3", "S8", "U1", "U3"], big=8, mid=0, small=0)
    def strategy(self, tier):
        @st.composite
        def s(draw):
            d = draw(vsort.sort_desc(self.ops, **self.kw))
            d["shape"] = [draw(vsort.biglen(d["dt"]))]
            d["lay"] = draw(vgen.layouts(1))
            d["axis"] = -1
            d["kind"] = draw(st.sampled_from(vsort.KINDS + ["stable", "mergesort"]))
            if np.dtype(d["dt"]).kind not in "SU":
                d["ord"] = draw(st.sampled_from(vsort.ORDERS + ["saw", "tail", "pieces", "pieces"]))
            return d
        return s()

def supported(dt):
    dt = np.dtype(dt)
    return dt.isnative and dt.kind in "?biufSU" and dt.char != "e"

class Lex(Part):
    name = "lexsort"
    examples = {"quick": 4000, "thorough": 70000}
    shards = {"quick": 4, "thorough": 8}
    def strategy(self, tier):
        @st.composite
        def s(draw):
            nk = draw(st.integers(1, 4))
            n = draw(vgen.lengths(2, 3, 5))
            dts = vsort.SORTABLE if draw(st.booleans()) else ["?"] + vgen.INTS + ["f4", "f8", "S3", "U3"]
            keys = [draw(vsort.key(dts)) for _ in range(nk)]
            for i, k in enumerate(keys):
                if i and np.dtype(k["dt"]).kind in "iub" and draw(st.booleans()):
                    k["cls"] = "small"        # ties, so that the secondary keys decide
            if n > 20000 and any(np.dtype(k["dt"]).kind in "SU" for k in keys) and draw(st.integers(0, 3)):
                n = n % 5000
            for k in keys:
                k["lay"] = draw(vgen.layouts(1, contiguous_bias=8))
            return {"keys": keys, "n": n, "op": draw(st.sampled_from(["np.lexsort", "pn.lexsort", "pn.lexsort", "pn.lexsort32", "pn.lexsort64"])),
                    "form": draw(st.sampled_from(["T", "L", "L", "L", "2d", "flat"]))}
        return s()
    def nontrivial(self, d):
        return d["n"] >= 17 or (d["n"] > 1 and len(d["keys"]) > 1)
    def execute(self, d, ctx):
        c = vgen.Case()
        ks = []
        if d["form"] == "2d":
            dt = d["keys"][0]["dt"]
            v = np.stack([vsort.vals(dt, d["n"], k["cls"] if k["dt"] == dt else vsort.classes(dt)[0], "asis", k["seed"]) for k in d["keys"]])
            arg = ("@A", c.place(v, {"o": [0, 1], "s": [1, 1], "p": 0, "al": d["keys"][0]["lay"]["al"]}))
        else:
            for k in d["keys"]:
                ks.append(("@A", vsort.place(c, k, [d["n"]], k["lay"])))
            arg = ("@T" if d["form"] != "L" else "@L", ks)
        args = [arg] if d["form"] != "flat" or d["op"] in ("np.lexsort", "pn.lexsort") else ks
        c.step(d["op"], *args)
        case = c.case()
        got = ctx.run(case)
        want = ctx.ref(dict(case, steps=[("np.lexsort", [arg], {})]))
        g, w = got["steps"][0], want["steps"][0]
        s = "%s form=%s keys=%s n=%d " % (d["op"], d["form"], [k["dt"] for k in d["keys"]], d["n"])
        sig = "%s %s " % (d["op"], d["form"])
        if g[0] != w[0]:
            ok = (g[0] == "exc" and g[1] == "ValueError" and d["op"] in ("pn.lexsort32", "pn.lexsort64") and
                  (d["form"] in ("T", "2d") or d["n"] == 0 or not all(supported(k["dt"]) and k["lay"]["s"] == [1] and k["lay"]["p"] == 0 for k in d["keys"])))
            if ok:
                m = vcmp.diff_mem(got, want, case, [])
                return [Failure(sig + "memory", s + m.msg)] if m else []
            return [Failure(sig + "outcome", s + str(g[:3])[:200] + str(w[:3])[:200])]
        if g[0] == "ok":
            if g[1][0] != "arr":
                return [Failure(sig + "type", s + str(g[1])[:200])]
            a, b = vcmp.unpack(g[1]), vcmp.unpack(w[1])
            if a.shape != b.shape or a.dtype.kind != "i":
                return [Failure(sig + "shape", s + str(a.shape) + str(a.dtype))]
            if (a != b).any():
                return [Failure(sig + "value", s + "%d of %d indices differ" % ((a != b).sum(), a.size))]
        m = vcmp.diff_mem(got, want, case, [])
        return [Failure(sig + "memory", s + m.msg)] if m else []

class LexOpts(Part):
    """index= (sort only these rows, in place) and cutoffs= (sort every partition separately)"""
    name = "lexsort_options"
    examples = {"quick": 2500, "thorough": 40000}
    shards = {"quick": 2, "thorough": 6}
    def strategy(self, tier):
        @st.composite
        def s(draw):
            nk = draw(st.integers(1, 3))
            n = draw(vgen.lengths(1, 2, 6, lo=1))
            keys = [draw(vsort.key(["?"] + vgen.INTS + ["f4", "f8", "S3", "S8", "U3"], swap=False)) for _ in range(nk)]
            if n > 20000 and any(np.dtype(k["dt"]).kind in "SU" for k in keys):
                n = n % 5000 + 1
            return {"keys": keys, "n": n, "w": draw(st.sampled_from([32, 64])), "mode": draw(st.sampled_from(["index", "cutoffs", "cutoffs", "kind"])),
                    "kind": draw(st.sampled_from(["quicksort", "mergesort", "heapsort", "stable"])),
                    "seed": draw(vgen.seeds), "parts": draw(st.integers(1, 12)), "m": draw(st.integers(1, 100)), "bad": draw(st.sampled_from([None] * 6 + ["len", "neg", "type", "range"]))}
        return s()
    def nontrivial(self, d):
        return d["n"] >= 17
    def execute(self, d, ctx):
        c = vgen.Case()
        n = d["n"]
        vals = [vsort.vals(k["dt"], n, k["cls"], k["ord"], k["seed"]) for k in d["keys"]]
        if d["mode"] == "kind":
            vals = vals[:1]
        ks = [("@A", c.place(v, {"o": [0], "s": [1], "p": 0, "al": 8 * (i % 8)})) for i, v in enumerate(vals)]
        rng = np.random.default_rng([d["seed"], n])
        idt = "i%d" % (d["w"] // 8)
        kw, written, bad, want = {}, [], False, None
        if d["mode"] == "index":
            m = n * d["m"] // 100     # also none at all
            ix = rng.permutation(n)[:m].astype(idt)
            if rng.random() < 0.3:
                ix = rng.integers(0, n, m).astype(idt)
            if d["bad"] == "range" and m:
                ix[rng.integers(0, m)] = rng.choice([n, -1, n + 1000]); bad = True
            if d["bad"] == "type":
                ix = ix.astype("i8" if idt == "i4" else "i4"); bad = True
            if d["bad"] == "len":
                ix = np.arange(n + 1).astype(idt); ix[-1] = 0; bad = True
            k = c.place(ix, {"o": [0], "s": [1], "p": 0, "al": 0})
            kw["index"] = ("@A", k)
            written = [k]
            if not bad:
                want = ix[np.lexsort([v[ix] for v in vals])]
        elif d["mode"] == "cutoffs":
            cu = np.sort(rng.integers(0, n + 1, d["parts"])).astype("i8")
            cu[-1] = n
            if d["bad"] == "len":
                cu[-1] = n + rng.choice([1, -1, 5]); bad = True
            if d["bad"] == "neg" and len(cu) > 1:
                cu[0] = rng.choice([-1, n + 1]); bad = True
            if d["bad"] == "type":
                cu = cu.astype("i4"); bad = True
            k = c.place(cu, {"o": [0], "s": [1], "p": 0, "al": 0})
            kw["cutoffs"] = ("@A", k)
            if not bad:
                parts, a = [], 0
                for b in cu:
                    parts.append(np.lexsort([v[a:b] for v in vals])); a = b
                want = np.concatenate(parts)
        else:
            kw["kind"] = d["kind"]
            want = np.lexsort(vals)
        s = c.step("pn.lexsort%d" % d["w"], ("@L", ks), **kw)
        case = c.case()
        got = ctx.run(case)
        mem = {"mem": [vexec.Block(b["size"], 0, b["data"]).content() for b in case["bufs"]]}
        g = got["steps"][s]
        inf = "lexsort%d %s keys=%s n=%d " % (d["w"], d["mode"], [k["dt"] for k in d["keys"]], n)
        sig = "lexsort%d %s " % (d["w"], d["mode"])
        if bad:
            if g[0] == "ok":
                return [Failure(sig + "accepted", inf + "invalid argument (%s) accepted" % d["bad"])]
            written = []
        else:
            if g[0] != "ok":
                return [Failure(sig + "outcome", inf + str(g[:3]))]
            a = vcmp.unpack(g[1])
            if a is None or a.dtype != np.dtype(idt) or a.shape != want.shape:
                return [Failure(sig + "type", inf + str(g[1][:3]))]
            if d["mode"] == "kind" and d["kind"] in ("quicksort", "heapsort"):
                r = vsort.check_argsort(vals[0], a, -1, False, want)
                if r:
                    return [Failure(sig + "value", inf + r)]
            elif (a != want).any():
                j = int(np.flatnonzero(a != want)[0])
                return [Failure(sig + "value", inf + "position %d is %d, expected %d" % (j, a[j], want[j]))]
        m = vcmp.diff_mem(got, mem, case, written)
        return [Failure(sig + "memory", inf + m.msg)] if m else []

PARTS = [ArgSort(), ArgBig(), Lex(), LexOpts()]
