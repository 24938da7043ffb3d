"""C20: whatever arguments a function of pnumpy is given, the call returns or raises; it changes none of them."""
import json
from hypothesis import strategies as st, assume
from vrun import Part, Failure
import vbuild, vclient
from props.c13 import cfg_ops

RULE = "a call is non-trivial when it has at least one argument that is an array or a container"
ASSUMPTIONS = ["the exception types SystemError (raised by the interpreter when a C function misbehaves) and crashes are what must not happen; which other exception is raised is judged by C09, C10 and C14",
               "pnumpy's private C function recarray_to_colmajor trusts its only caller (pnumpy/recarray.py), which is checked in its place", "the index= argument of lexsort32 and lexsort64 is sorted in place"]
PUBLIC = ["getitem", "lexsort32", "lexsort64", "sort", "lexsort", "argsort", "argmin", "argmax", "recarray_to_colmajor", "atop_info", "atop_setworkers", "thread_setworkers", "thread_getworkers",
          "thread_zigzag", "atop_enable", "atop_disable", "atop_isenabled", "thread_enable", "thread_disable", "thread_isenabled", "ledger_isenabled", "ledger_info", "recycler_enable", "recycler_disable",
          "recycler_isenabled", "recycler_info", "timer_gettsc", "timer_getutc", "cpustring", "init", "initialize", "enable", "disable", "_pnumpy.sort"]
HEAVY = ["getitem"] * 5 + ["lexsort32", "lexsort64"] * 3 + ["_pnumpy.sort"] * 2 + ["recarray_to_colmajor", "recarray_to_colmajor", "sort", "argsort", "lexsort", "argmax"]
DTS = ["?", "i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8", "q", "Q", "f2", "f4", "f8", "g", "F", "D", "G", "S3", "U2", "S0", "O", "M8[s]", "m8[D]", "V3", "V0", ">i4", ">f8", ">U1", [["x", "i4"], ["y", "S3"]], [["a", "f8"], ["b", "O"]], [["c", ">i2"]]]
HOW = ["", "", "", "ro", "rev", "step", "zero", "F", "unal", "swap", "sub", "mat", "ma", "rec", "mix"]
seeds = st.integers(0, 2**20)

@st.composite
def shapes(draw):
    k = draw(st.integers(0, 9))
    if k < 6: return [draw(st.integers(0, 40))]
    if k == 6: return []
    if k == 7: return [draw(st.integers(0, 5)), draw(st.integers(0, 9))]
    if k == 8: return draw(st.lists(st.integers(0, 3), min_size=3, max_size=5))
    return [draw(st.sampled_from([64, 255, 1000, 16384, 16385, 65536, 70001]))]

@st.composite
def arrays(draw, dts=DTS, n=None):
    sh = draw(shapes()) if n is None else [n]
    return ["arr", draw(st.sampled_from(dts)), sh, draw(st.sampled_from(HOW)), draw(seeds)]

def scalars():
    return st.one_of(st.sampled_from([["py", None], ["py", True], ["py", False], ["dots"], ["bytes"], ["fun"], ["weird"], ["gen"], ["cyc"], ["surr"], ["void"], ["py", ""], ["py", "i8"], ["py", "stable"], ["py", "q"],
                                      ["float", "nan"], ["float", "inf"], ["float", "1.5"], ["int", str(2**63)], ["int", str(-2**63 - 1)], ["int", str(2**200)], ["int", str(2**31)], ["int", str(-2**31)]]),
                     st.integers(-70, 70).map(lambda n: ["int", str(n)]), st.integers(-5, 40).map(lambda n: ["liar", n]), st.sampled_from(DTS[:16]).map(lambda t: ["dtype", t]), st.sampled_from(DTS[:16]).map(lambda t: ["type", t]),
                     st.tuples(st.sampled_from(DTS[:10]), st.integers(0, 1)).map(lambda t: ["npsc", t[0], t[1]]),
                     st.lists(st.one_of(st.none(), st.integers(-50, 50)), min_size=3, max_size=3).map(lambda l: ["slice", l]), st.integers(0, 3).map(lambda k: ["same", k]),
                     st.sampled_from(["add", "less", "sqrt", "nosuch", "sort", "x\u00e9", "a" * 300]).map(lambda s: ["py", s]))

def value(depth=2):
    leaf = st.one_of(arrays(), scalars(), arrays())
    if not depth:
        return leaf
    sub = st.lists(value(depth - 1), max_size=4)
    return st.one_of(leaf, leaf, leaf, sub.map(lambda l: ["list", l]), sub.map(lambda l: ["tuple", l]), sub.map(lambda l: ["dict", l]))
VALUE = value()
KW = ["index", "filter", "base_index", "cutoffs", "kind", "axis", "order", "default", "a", "ascending", "v", "side", "sorter", "out", "parallel", "nosuch"]
INTS = ["i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8", "q", "Q"]

@st.composite
def template(draw, f):
    """arguments as they should be; then perhaps one of them is replaced"""
    kw = {}
    g = f.split(".")[-1]
    n = draw(st.one_of(st.integers(0, 40), st.sampled_from([255, 16384, 65537])))
    if g == "getitem":
        ix = draw(st.one_of(arrays(["?"], n), arrays(INTS), arrays(INTS, n)))
        a = [draw(arrays(DTS, n)), ix]
        if draw(st.booleans()):
            a.append(draw(scalars()))
    elif g.startswith("lexsort"):
        plain = draw(st.booleans())      # keys it accepts: what else is wrong is looked at then
        ks = draw(st.lists(arrays(INTS + ["f4", "f8", "S3", "U2"] if plain else DTS, n), min_size=1, max_size=4))
        if len(ks) > 1 and draw(st.integers(0, 3)) == 0:      # one of them of another length
            ks[draw(st.integers(0, len(ks) - 1))][2] = [draw(st.sampled_from([0, 1, max(0, n - 1), n + 1, n // 2, 2 * n]))]
        a = [["list", ks]] if draw(st.booleans()) else ks
        if draw(st.integers(0, 2)) == 0: kw["index"] = draw(arrays(["i4", "i8", "i8", "u4", "q"], draw(st.sampled_from([n, n, n, max(0, n - 1), n + 1]))))
        if plain and draw(st.booleans()):
            for k in ks: k[3] = ""
        if draw(st.integers(0, 2)) == 0: kw["cutoffs"] = draw(st.one_of(arrays(["i8", "i8", "i4", "q"], draw(st.integers(0, 4))), arrays(INTS), VALUE))
    elif g == "sort":
        a = [draw(arrays())]
        if draw(st.booleans()): kw["kind"] = draw(st.sampled_from([["py", k] for k in ("q", "m", "h", "s", "stable", "x", "", None)]))
        if f == "sort" and draw(st.booleans()): kw["axis"] = draw(scalars())
    elif g == "recarray_to_colmajor":
        a = [draw(arrays(DTS[-3:] * 3 + ["i4"]))] + ([["py", False]] if draw(st.booleans()) else [])
    elif g in ("argsort", "argmin", "argmax"):
        a = [draw(arrays())]
    elif g == "atop_info":
        a = [["py", draw(st.sampled_from(["add", "less", "sqrt", "sin", "isnan"]))], ["int", str(draw(st.integers(-3, 30)))]]
    elif g == "atop_setworkers":
        a = [["py", draw(st.sampled_from(["add", "less", "sqrt", "sin", "isnan"]))], ["int", str(draw(st.integers(-3, 30)))], ["int", str(draw(st.integers(-2, 70)))]]
    elif g == "thread_setworkers":
        a = [["int", str(draw(st.integers(-3, 30)))]]
    else:
        a = []
    return a, kw

@st.composite
def call(draw, funcs=PUBLIC + HEAVY * 2):
    f = draw(st.sampled_from(funcs))
    a, kw = draw(template(f)) if draw(st.integers(0, 4)) else (draw(st.lists(VALUE, max_size=4)), {})
    if a and draw(st.integers(0, 2)) == 0:
        a[draw(st.integers(0, len(a) - 1))] = draw(VALUE)
    if draw(st.integers(0, 9)) == 0:
        a.append(draw(VALUE))
    if draw(st.integers(0, 9)) == 0:
        kw[draw(st.sampled_from(KW))] = draw(VALUE)
    return {"f": f, "a": a, "kw": kw}

def records(v):
    """a long array of records among the arguments"""
    if isinstance(v, list) and v[:1] == ["arr"]:
        return isinstance(v[1], list) and v[2] and v[2][0] > 1000
    return any(records(x) for x in v) if isinstance(v, list) else False

class Any(Part):
    name = "any"
    leaks = False
    examples = {"quick": 24000, "thorough": 300000}
    shards = {"quick": 6, "thorough": 8}
    def strategy(self, tier):
        @st.composite
        def s(draw):
            d = draw(call())
            d["reps"] = 30 if self.leaks else 0
            d["guard"] = draw(st.sampled_from([None, None, "end", "end", "start"])) if not self.leaks else None
            d["pre"] = cfg_ops(draw, 0, 2)
            if records(d["a"]) or records(list(d["kw"].values())):
                assume(not self.leaks)     # slow
                d["guard"] = None     # numpy allocates for every comparison of records
            return d
        return s()
    def nontrivial(self, d):
        s = json.dumps([d["a"], d["kw"]])
        return any('"%s"' % k in s for k in ("arr", "list", "tuple", "dict"))
    def judge(self, d, got):
        s = got["steps"][0]
        inf = "pn.%s(%s, %s): " % (d["f"], json.dumps(d["a"])[:700], json.dumps(d["kw"])[:300])
        if s[0] != "ok":
            return [Failure("%s harness" % d["f"], inf + str(s[1:]))]
        import vcmp
        r, changed, leaks = unpacked(s[1])
        if r[0] == "exc" and r[1] == "SystemError":
            return [Failure("%s SystemError" % d["f"], inf + str(r))]
        changed = [i for i in changed if i < len(d["a"]) or list(d["kw"])[i - len(d["a"])] != "index" or not d["f"].startswith("lexsort")]
        vals = d["a"] + list(d["kw"].values())
        if d["f"].startswith("lexsort") and "index" in d["kw"]:      # sorted in place, as asked: another argument may hold it too
            changed = [i for i in changed if '"same"' not in json.dumps(vals[i])]
        if d["f"] in ("argmin", "argmax"):     # out
            changed = [i for i in changed if i != 2 and (i < len(d["a"]) or list(d["kw"])[i - len(d["a"])] != "out")]
        if changed:
            return [Failure("%s changed" % d["f"], inf + "argument %s was changed" % changed)]
        return [Failure("%s leak %s" % (d["f"], leaks[0][0]), inf + "every call (%s) leaves behind %s" % (r[:2], leaks))] if leaks else []
    def execute(self, d, ctx):
        case = {"bufs": [], "arrs": [], "steps": [("junk", [dict(d)], {})], "guard": d["guard"], "pre": d["pre"], "loose": True}
        own = d["f"] in ("sort", "argsort", "argmin", "argmax", "lexsort")      # these are there in numpy as well
        try:
            f = self.judge(d, ctx.run(case))
        except vclient.TargetDied as e:
            if not own:
                raise
            f = [Failure("crash", str(e)[:600])]
        if f and own:
            plain = dict(case, pre=[])
            try:                          # numpy alone does the same
                g = self.judge(d, ctx.run(plain, mode="plain", env={"VMEM": vbuild.native("vmem")}))
            except vclient.TargetDied as e:
                g = [Failure("crash", str(e)[:600])]
            if [x.sig for x in g] == [x.sig for x in f]:
                return []
        return f

def unpacked(p):
    k, v = p[0], p[1]
    if k in ("lst", "tup"):
        return [unpacked(x) for x in v]
    return v

PARTS = [Any()]
