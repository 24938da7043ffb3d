"""Case executor shared by the reference process (plain numpy) and the target process (numpy+pnumpy).

A case is a plain picklable dict:
  bufs : list of {size, align, data(bytes)}          raw memory blocks, placed at address == align (mod 64)
  arrs : list of (buf, dtype-descr, shape, strides, offset[, readonly])  views into the blocks
  steps: list of (func, args, kwargs)                 evaluated in order
Arguments may contain ("@A", i) (array i), ("@R", i) (result of step i), ("@D", descr) (a dtype),
("@T", [..]) (a tuple), ("@V", bytes, descr, shape) (a value array).
The outcome lists, per step, the result or the exception type, the floating point flags numpy
reported, and finally the raw content of every block, so that anything written outside the
declared outputs is visible to the comparison.
"""
import ctypes, pickle, sys, warnings
import numpy as np

warnings.simplefilter("ignore")
FUNCS = {}

def fn(name):
    def deco(f):
        FUNCS[name] = f
        return f
    return deco

def descr_of(dt):
    dt = np.dtype(dt)
    if dt.names or dt.subdtype:
        return dt
    return dt.char if dt.char in "qQ" and dt.isnative else dt.str

def todtype(d):
    return d if isinstance(d, np.dtype) else np.dtype(d)

class Block:
    def __init__(self, size, align, data=None):
        self.raw = ctypes.create_string_buffer(size + 192)
        base = ctypes.addressof(self.raw)
        self.off = 64 + ((align - base) % 64)
        self.size = size
        self.mv = memoryview(self.raw).cast("B")
        # guard bytes on both sides
        self.mv[0:self.off] = b"\xA5" * self.off
        tail = len(self.mv) - self.off - size
        self.mv[self.off + size:] = b"\x5A" * tail
        if data is not None:
            self.mv[self.off:self.off + size] = data

    def content(self):
        """whole block including guards, normalised to start at the data"""
        return bytes(self.mv[self.off - 64:self.off + self.size + 64])

class AsanBlock(Block):
    """ends exactly where its allocation ends (run with AddressSanitizer's allocator)"""
    def __init__(self, size, align, data=None):
        self.off, self.size = align % 64, size
        self.raw = np.empty(self.off + size, np.uint8)
        self.mv = memoryview(self.raw)
        self.mv[:self.off] = b"\xA5" * self.off
        if data is not None:
            self.mv[self.off:] = data
    def content(self):
        return (b"\xA5" * 64 + bytes(self.mv[:self.off]))[-64:] + bytes(self.mv[self.off:]) + b"\x5A" * 64

REF = {}     # reference-only replacements, used where the installed numpy itself is known to be wrong

def _safe_predicate(name):
    # numpy 1.26's SIMD isnan/isinf/isfinite/signbit return wrong answers for a strided output;
    # the reference evaluates them on a contiguous copy and then stores the result
    u = getattr(np, name)
    def f(x, out=None, where=True, casting="same_kind"):
        r = u(np.array(x, copy=True, order="C"))
        if out is None:
            return r
        np.copyto(out, r, where=where, casting=casting)
        return out
    return f
for _n in ("isnan", "isinf", "isfinite", "signbit"):
    REF["np." + _n] = _safe_predicate(_n)

def resolve(name, pn):
    if pn is None and name in REF:
        return REF[name]
    if name in FUNCS:
        return FUNCS[name]
    if name.startswith("np."):
        o = np
        for p in name[3:].split("."):
            o = getattr(o, p)
        return o
    if name.startswith("pn."):
        if pn is None:
            raise LookupError(name)
        o = pn
        for p in name[3:].split("."):
            o = getattr(o, p)
        return o
    if name.startswith("."):
        meth = name[1:]
        return lambda obj, *a, **k: getattr(obj, meth)(*a, **k)
    raise LookupError(name)

def _arg(a, A, R):
    if isinstance(a, tuple) and a and isinstance(a[0], str) and a[0].startswith("@"):
        t = a[0]
        if t == "@A":
            return A[a[1]]
        if t == "@R":
            return R[a[1]]
        if t == "@D":
            return todtype(a[1])
        if t == "@T":
            return tuple(_arg(x, A, R) for x in a[1])
        if t == "@L":
            return [_arg(x, A, R) for x in a[1]]
        if t == "@V":
            return np.frombuffer(a[1], todtype(a[2])).reshape(a[3]).copy()
        if t == "@S":     # numpy scalar
            return np.frombuffer(a[1], todtype(a[2]))[0]
        if t == "@I":     # slice
            return slice(*a[1])
        raise ValueError(t)
    return a

def pack(r):
    if isinstance(r, np.ndarray):
        if r.dtype.hasobject:
            return ("obj", r.tolist())
        return ("arr", descr_of(r.dtype), r.shape, r.tobytes(), type(r).__name__)
    if isinstance(r, np.generic):
        if r.dtype.hasobject:
            return ("obj", r.item())
        return ("gen", descr_of(r.dtype), (), np.asarray(r).tobytes(), "generic")
    if isinstance(r, tuple):
        return ("tup", [pack(x) for x in r])
    if isinstance(r, list):
        return ("lst", [pack(x) for x in r])
    if isinstance(r, dict):
        return ("dct", [(k, pack(v)) for k, v in r.items()])
    if r is None or isinstance(r, (int, float, str, bool, bytes)):
        return ("py", r)
    return ("repr", type(r).__name__)

CFG = None       # set by vfuncs: applies configuration operations in the target

def run_case(case, pn=None):
    """case["pre"], case["post"]: configuration operations of the target; case["fork"|"thread"]: where to run;
    case["multi"]: several cases at the same time"""
    if pn is None:
        return run_plain(case)
    import vmulti
    cfg = []
    if "pre" in case:
        cfg += CFG(pn, case["pre"])
    try:
        if "multi" in case:
            r = vmulti.run_multi(case, pn)
        elif case.get("fork"):
            r = vmulti.run_fork(case, pn)
        elif case.get("thread"):
            r = vmulti.run_thread(case, pn)
        elif case.get("sig"):
            r = vmulti.run_signals(case, pn)
        else:
            r = run_plain(case, pn)
    finally:
        if "post" in case:
            cfg += CFG(pn, case["post"])
    if cfg:
        r["cfg"] = cfg
    return r

def run_plain(case, pn=None):
    guard = case.get("guard") if pn is not None else None
    if guard and guard != "asan":
        import vmem
        vmem.mode(guard)
        try:
            return _run_plain(case, pn, guard)
        finally:
            vmem.mode(None)
    return _run_plain(case, pn, guard)

class Prepared:
    """the blocks and arrays of a case, and its evaluation"""
    def __init__(self, case, pn, guard):
        self.case, self.pn, self.arm = case, pn, None
        if guard and guard != "asan":
            import vguard
            self.blocks = [vguard.GuardBlock(b["size"], b.get("align", 0), b.get("data"), guard) for b in case["bufs"]]
        elif guard:
            self.blocks = [AsanBlock(b["size"], b.get("align", 0), b.get("data")) for b in case["bufs"]]
        else:
            self.blocks = [Block(b["size"], b.get("align", 0), b.get("data")) for b in case["bufs"]]
        self.A = []
        for spec in case["arrs"]:
            b, d, shape, strides, off = spec[:5]
            blk = self.blocks[b]
            mv = blk.mv[blk.off:blk.off + blk.size]
            arr = np.ndarray(tuple(shape), todtype(d), buffer=mv, offset=off, strides=tuple(strides))
            if len(spec) > 5 and spec[5]:
                arr.flags.writeable = False
            self.A.append(arr)
    def restore(self):
        for blk, b in zip(self.blocks, self.case["bufs"]):
            if b.get("data") is not None:
                blk.mv[blk.off:blk.off + blk.size] = b["data"]
    def execute(self):
        pn, A = self.pn, self.A
        R, out = [], []
        for step in self.case["steps"]:
            name, args, kw = step
            flags = []
            if name.startswith("@only"):     # target-only configuration step
                if pn is None:
                    R.append(None); out.append(("skip",)); continue
                name = name[5:]
            try:
                f = resolve(name, pn)
                a = [_arg(x, A, R) for x in args]
                k = {kk: _arg(v, A, R) for kk, v in kw.items()}
                with np.errstate(all="call"):
                    old = np.geterrcall()
                    np.seterrcall(lambda err, flag: flags.append(err))
                    try:
                        if self.arm is None:
                            r = f(*a, **k)
                        else:
                            with self.arm:
                                r = f(*a, **k)
                    finally:
                        np.seterrcall(old)
                R.append(r)
                out.append(("ok", None, sorted(set(flags))))
            except Exception as e:   # noqa
                R.append(None)
                out.append(("exc", type(e).__name__, str(e)[:300], sorted(set(flags))))
        return out, R
    def outcome(self, out, R):
        # results are packed at the end so aliasing effects are seen
        res = []
        for o, r in zip(out, R):
            if o[0] == "ok":
                res.append(("ok", pack(r), o[2]))
            else:
                res.append(o)
        return {"steps": res, "mem": [b.content() for b in self.blocks]}
    def key(self, out, R):
        """cheap summary that differs when the outcome differs (results that are not arrays are packed)"""
        k = []
        for o, r in zip(out, R):
            k.append(o)
            if o[0] != "ok":
                continue
            if isinstance(r, np.ndarray) and not r.dtype.hasobject and r.dtype.char not in "gG":
                k.append((str(r.dtype), r.shape, r.tobytes()))
            else:
                k.append(pickle.dumps(pack(_known(r))))
        return k, [bytes(b.mv) for b in self.blocks]

def _known(x):
    """results with the padding bytes of 80-bit values cleared"""
    if isinstance(x, (np.ndarray, np.generic)) and x.dtype.char in "gG" and not x.dtype.hasobject:
        n = x.dtype.isnative
        x = np.array(x, order="C", ndmin=1)
        x.reshape(-1).view(np.uint8).reshape(-1, 16)[:, slice(10, 16) if n else slice(0, 6)] = 0
    elif isinstance(x, (tuple, list)):
        return [_known(y) for y in x]
    return x

def _run_plain(case, pn, guard):
    if case.get("oom"):
        import voom
        return voom.run(case, Prepared, pn)
    p = Prepared(case, pn, guard)
    r = p.outcome(*p.execute())
    if case.get("leak"):
        import vjunk
        r["leaks"] = vjunk.leak_of(p.execute, case["leak"], p.A + vjunk.SINGLES)
    return r

_libc = None
def stdout_text():
    """what was written to standard output since the last call (in the target it is a file in memory)"""
    import os
    global _libc
    if _libc is None:
        _libc = ctypes.CDLL(None)
    sys.stdout.flush()
    _libc.fflush(None)
    n = os.fstat(1).st_size
    if not n:
        return ""
    t = os.pread(1, n, 0).decode("utf8", "replace")
    os.ftruncate(1, 0); os.lseek(1, 0, 0)
    return t

def serve():
    """target process: framed pickles on stdin/stdout"""
    import os
    inp = os.fdopen(os.dup(0), "rb")
    outp = os.fdopen(os.dup(1), "wb")
    os.dup2(os.memfd_create("stdout"), 1)
    mode = sys.argv[1]
    pn = None
    if mode == "target":
        import pnumpy as pn
    import vfuncs, vjunk, vlib  # noqa: F401  (they register FUNCS)
    vfuncs.pn = pn
    REF.clear()          # numpy as it is
    if os.environ.get("VMEM"):
        import vmem
        vmem.load(os.environ["VMEM"]); vmem.install()
    while True:
        try:
            cases = pickle.load(inp)
        except EOFError:
            break
        if cases is None:
            break
        r = run_case(cases, pn)
        said = stdout_text()
        if said:
            r["stdout"] = said
        pickle.dump(r, outp, protocol=5)
        outp.flush()
    os._exit(0)

if __name__ == "__main__":
    sys.modules["vexec"] = sys.modules["__main__"]
    serve()
