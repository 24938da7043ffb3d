"""C18: the ledger records what ran and nothing else; neither it nor the recycler changes a result."""
import re
import numpy as np
from hypothesis import strategies as st
import vexec, vgen, vunder
from vrun import Part, Failure
from props.c13 import cfg_ops

RULE = ("a case is a generated case of one of C01-C12 computed with ledger and recycler switched on (non-trivial when that case is), one recorded operation (at least 2 elements), "
        "or threads computing while the ledger is switched (always)")
ASSUMPTIONS = ["results with the ledger on are judged as in the inner property", "one line is one loop: '<cycles> \\tlen: <n>   <function>,  <type>,  <category>', as printed",
               "what is hooked is what atop_info() lists, and sort, argsort, argmin, argmax and arange (any type; when they record, they record right)"]
LINE = re.compile(r"-?\d+ \tlen: (\d+)   (\w+),  (\w+),  (\w+)$")
TYPES = {"bool": "?", "int8": "i1", "uint8": "u1", "int16": "i2", "uint16": "u2", "int32": "i4", "uint32": "u4", "int64": "i8", "uint64": "u8",
         "float16": "f2", "float32": "f4", "float64": "f8", "float80": "g", "cfloat16": None, "cfloat32": "c8", "cfloat64": "c16", "cfloat80": "G", "string": "S", "unicode": "U", "void": "V",
         "int128": None, "uint128": None}
CATS = ["Binary", "Reduce", "Compare", "Unary", "TrigLog", "Sort", "ArgSort", "ArgMinMax", "Arange"]

def plain(p):
    return p[1] if p[0] == "py" else [plain(x) for x in p[1]]

def lines(text):
    """-> parsed lines, or the first one that is not a record"""
    out = []
    for l in text.splitlines():
        if "\tlen:" not in l:
            continue             # a message, not a record
        m = LINE.match(l)
        if not m or m.group(4) not in CATS or m.group(3) not in TYPES or (m.group(4) in CATS[:5]) != isinstance(getattr(np, m.group(2), None), np.ufunc):
            return None, l
        out.append((int(m.group(1)), m.group(2), m.group(3), m.group(4)))
    return out, None

class Transparent(vunder.Under):
    """the results, with ledger and recycler on"""
    name = "transparent"
    bias = 4
    examples = {"quick": 9000, "thorough": 90000}
    shards = {"quick": 4, "thorough": 8}
    def config(self, draw, tier):
        sw = draw(st.sampled_from([["ledger_enable"], ["recycler_enable"], ["ledger_enable", "recycler_enable"], ["recycler_enable", "ledger_enable"]]))
        return {"pre": cfg_ops(draw, 0, 2) + [[s] for s in sw], "on": int("ledger_enable" in sw)}
    def edit(self, cfg):
        return lambda case: dict(case, pre=cfg["pre"], post=[["ledger_disable"], ["recycler_disable"]], ledger=cfg["on"])
    def execute(self, d, ctx):
        seen = []
        class C:
            def __init__(s, c): s.c = c
            def __getattr__(s, k): return getattr(s.c, k)
            def run(s, case, **kw):
                r = s.c.run(case, **kw); seen.append(r.get("stdout", "")); return r
        fails = super().execute(d, C(ctx))
        for t in seen:
            ok, bad = lines(t)
            if ok is None:
                fails.append(Failure("line", "not a record of the ledger: %r" % bad[:200]))
        return fails

BIN = ["add", "multiply", "subtract", "minimum", "maximum", "true_divide", "floor_divide", "bitwise_and", "bitwise_or", "bitwise_xor", "left_shift", "right_shift", "logical_and", "logical_or"]
CMP = ["equal", "not_equal", "greater", "greater_equal", "less", "less_equal"]
UNA = ["abs", "absolute", "logical_not", "isinf", "isnan", "isfinite", "negative", "invert", "bitwise_not", "sign", "signbit", "floor", "ceil", "trunc", "rint", "sqrt"]
TRIG = ["sin", "cos", "tan", "arcsin", "arccos", "arctan", "sinh", "cosh", "tanh", "arcsinh", "arccosh", "arctanh", "cbrt", "exp", "exp2", "expm1", "log", "log2", "log10", "log1p"]
RED = ["add", "multiply", "minimum", "maximum", "bitwise_and", "bitwise_or", "bitwise_xor", "logical_and", "logical_or"]
NOT = [("power", 2), ("hypot", 2), ("remainder", 2), ("copysign", 2), ("fmax", 2), ("fmin", 2), ("logical_xor", 2), ("square", 1), ("reciprocal", 1), ("spacing", 1), ("conjugate", 1), ("positive", 1), ("deg2rad", 1)]
DTS = ["?", "i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8", "q", "Q", "f2", "f4", "f8", "g", "F", "D", "M8[s]", "m8[s]"]

def args_for(d):
    dt = np.dtype(d["dt"])
    return lambda s: ("@V", vgen.values(dt, d["n"], "tiny" if dt.kind in "iu" else "nice", s).tobytes(), vexec.descr_of(dt), (d["n"],))

def arr(d, s):
    dt = np.dtype(d["dt"])
    rng = np.random.default_rng(s)
    v = rng.integers(0, 2 if dt.kind == "b" else 7, d["n"])
    return ("@V", v.astype(dt).tobytes(), vexec.descr_of(dt), (d["n"],))

class Records(Part):
    """one operation, one record"""
    name = "records"
    examples = {"quick": 6000, "thorough": 60000}
    shards = {"quick": 2, "thorough": 8}
    KEYS = None
    def strategy(self, tier):
        @st.composite
        def s(draw):
            k = draw(st.sampled_from(["bin", "cmp", "una", "trig", "red", "sort", "argsort", "argmm", "arange", "not"]))
            f = draw(st.sampled_from({"bin": BIN, "cmp": CMP, "una": UNA, "trig": TRIG, "red": RED, "sort": ["quicksort", "mergesort", "stable", "heapsort"],
                                      "argsort": ["quicksort", "mergesort", "stable", "heapsort"], "argmm": ["argmax", "argmin"], "arange": ["arange"], "not": [x[0] for x in NOT]}[k]))
            return {"k": k, "f": f, "dt": draw(st.sampled_from(DTS)), "n": draw(st.one_of(st.integers(0, 40), st.sampled_from([1000, 8191, 8192, 8193, 16384, 65535, 65536, 65537, 70001, 200003]))),
                    "pre": draw(st.sampled_from([[], [], ["recycler_enable"], ["atop_disable"], ["thread_disable"], ["disable", "atop_enable"]]))}
        return s()
    def nontrivial(self, d):
        return d["n"] >= 2
    def step(self, d):
        k, f = d["k"], d["f"]
        A, B = arr(d, 1), arr(d, 2)
        if k in ("bin", "cmp"):
            return ["np." + f, [A, B], {}]
        if k in ("una", "trig"):
            return ["np." + f, [A], {}]
        if k == "red":
            return ["np.%s.reduce" % f, [A], {"dtype": d["dt"]}]
        if k in ("sort", "argsort"):
            return ["np." + k, [A], {"kind": f}]
        if k == "argmm":
            return ["np." + f, [A], {}]
        if k == "arange":
            return ["np.arange", [d["n"]], {"dtype": d["dt"]}]
        return ["np." + f, [A, B][:dict(NOT)[f]], {}]
    def execute(self, d, ctx):
        dt = np.dtype(d["dt"])
        if self.KEYS is None:
            r = ctx.run({"bufs": [], "arrs": [], "steps": [["ledger_keys", [], {}]]})
            type(self).KEYS = set(map(tuple, plain(r["steps"][0][1])))
        op, a, kw = self.step(d)
        r = ctx.run({"bufs": [], "arrs": [], "ledger": 1, "steps": [["ledger", [op, ("@L", a), kw, d["pre"]], {}]]})
        o = r["steps"][0]
        if o[0] != "ok":
            w = ctx.ref({"bufs": [], "arrs": [], "steps": [[op, a, kw]]})["steps"][0]
            if w[0] == "ok" or w[1] != o[1]:
                return [Failure("raised", "%s, without the ledger %s" % (str(o)[:200], str(w)[:200]))]
            return []            # numpy does not do that either: errors are judged by the other properties
        on, off, said, cycles = plain(o[1])
        out = []
        if off:
            out.append(Failure("%s off" % d["k"], "recorded with the ledger off: %r" % off[:200]))
        if list(said) != [True, True, False, False]:
            out.append(Failure("isenabled", "ledger_isenabled() said %r after enabling, an operation, disabling, an operation" % (said,)))
        rec, bad = lines(on)
        if rec is None:
            return out + [Failure("line", "not a record of the ledger: %r" % bad[:200])]
        # each record's cycles are a part of those the whole operation took (half a million more or less: clocks of two CPUs)
        took = [int(l.split()[0]) for l in on.splitlines() if "\tlen:" in l]
        if any(not -500000 <= c <= cycles + 500000 for c in took):
            out.append(Failure("cycles", "recorded %s cycles for an operation that took %d: %r" % (took, cycles, on[:300])))
        k, f, n = d["k"], d["f"], d["n"]
        def fail(msg):
            out.append(Failure("%s %s" % (k, f), "%s of %d %s: %s; recorded: %r" % (f, n, dt, msg, on[:300])))
        if k in ("sort", "argsort", "argmm", "arange"):
            cat = {"sort": "Sort", "argsort": "ArgSort", "argmm": "ArgMinMax", "arange": "Arange"}[k]
            if len(rec) > 1:
                fail("more than one record")
            if not rec and n > 3 and dt.char in "?bBhHiIlLqQfd" and f != "heapsort":
                fail("no record")
            for r in rec:
                if r[3] != cat or r[0] != n or TYPES[r[2]] is None or np.dtype(TYPES[r[2]]).num != dt.num and np.dtype(TYPES[r[2]]) != dt:
                    fail("wrong record")
            return out
        # the loop numpy picks without converting anything
        u = getattr(np, f)
        c = dt.char
        t = next((x for x in u.types if x.split("->")[0] == c * u.nin), None)
        hooked = t is not None and any((g, dt.num) in self.KEYS or (g, np.dtype(TYPES_NUM(dt)).num) in self.KEYS for g in names(u))
        if t is None or not hooked:
            if t is not None and rec:
                fail("a record of something not accelerated")
            return out           # the operands are converted: any number of loops of any type
        if n < (2 if k == "red" else 1):
            return out
        cat = {"bin": "Binary", "cmp": "Compare", "una": "Unary", "trig": "TrigLog", "red": "Reduce"}[k]
        if k == "red" and t.split("->")[1] != c:
            return out
        if len(rec) != 1:
            fail("%d records" % len(rec))
            return out
        r = rec[0]
        if r[0] not in ((n, n - 1) if k == "red" else (n,)):
            fail("wrong length")
        if getattr(np, r[1], None) is not u:
            fail("wrong function")
        if TYPES[r[2]] is None or np.dtype(TYPES[r[2]]) != dt:
            fail("wrong type")
        if r[3] != cat:
            fail("wrong category")
        return out

def TYPES_NUM(dt):
    return {"q": "l", "Q": "L"}.get(dt.char, dt.char)

_NAMES = {}
def names(u):
    if u not in _NAMES:
        _NAMES[u] = [k for k in dir(np) if getattr(np, k, None) is u]
    return _NAMES[u]

class Threads(Part):
    """switching while other threads compute"""
    name = "threads"
    examples = {"quick": 60, "thorough": 1500}
    shards = {"quick": 2, "thorough": 4}
    def strategy(self, tier):
        return st.fixed_dictionaries({"n": st.sampled_from([600, 1000, 3000, 20000, 70001]), "dt": st.sampled_from(["i4", "i8", "f4", "f8"]), "threads": st.integers(1, 4),
                                      "ops": st.lists(st.sampled_from(["add", "sub", "mul", "lt", "ge", "eq"]), min_size=1, max_size=3),
                                      "switches": st.lists(st.sampled_from([0, 10, 100, 500, 2000]), min_size=3, max_size=12)})
    def execute(self, d, ctx):
        r = ctx.run({"bufs": [], "arrs": [], "ledger": 1, "steps": [["ledger_threads", [d], {}]]})
        o = r["steps"][0]
        if o[0] != "ok":
            return [Failure("threads raised", str(o)[:300])]
        text, wrong, last, off, bad = plain(o[1])
        out = []
        if wrong or last:
            out.append(Failure("threads switch", "ledger_isenabled() while other threads computed: %r, at the end %r" % (wrong, last)))
        if off:
            out.append(Failure("threads off", "recorded with the ledger off: %r" % off[:200]))
        if bad:
            out.append(Failure("threads result", "wrong results of %r" % bad))
        rec, l = lines(text)
        if rec is None:
            out.append(Failure("line", "not a record of the ledger: %r" % l[:200]))
        return out
PARTS = [Transparent(), Records(), Threads()]
