"""Target side of C20: calls with arbitrary arguments.  A value is described by a small list (see build)."""
import gc, sys
import numpy as np
import vexec
from vexec import fn

class Weird:
    """answers every protocol with an error"""
    def __len__(self): raise ValueError("len")
    def __index__(self): raise ValueError("index")
    def __getattr__(self, n): raise AttributeError(n)
class Liar:
    def __init__(self, n): self.n = n
    def __len__(self): return self.n
    def __getitem__(self, i):
        if i > self.n: raise IndexError
        return i
    def __index__(self): return self.n
class Sub(np.ndarray):
    pass

def arr(d, pool):
    """["arr", dtype, shape, how, seed]"""
    _, dt, shape, how, seed = d
    dt = np.dtype([tuple(f) for f in dt] if isinstance(dt, list) else dt)
    shape = tuple(shape)
    rng = np.random.default_rng(seed)
    n = int(np.prod(shape))
    if dt.kind == "O":
        a = np.empty(shape, object); a.reshape(-1)[:] = [pool[int(k) % len(pool)] if pool and k % 3 else int(k) for k in rng.integers(0, 9, n)]
    elif dt.kind == "b":
        a = (rng.integers(0, 3, n) > 0).reshape(shape)
    elif dt.kind in "iu":
        hi = {0: 3, 1: max(1, n), 2: 100}[seed % 3]
        a = rng.integers(-hi if dt.kind == "i" and seed % 2 else 0, hi + 1, n).astype(dt).reshape(shape)
    elif dt.names:
        raw = np.empty(shape, dt); raw[...] = 0
        for f in dt.names:
            if raw[f].dtype.kind in "iuf": raw[f] = rng.integers(0, 50, raw[f].shape)
        a = raw
    elif dt.itemsize == 0 or dt.kind in "SUV":
        a = rng.integers(0, 30, n).astype("S2" if dt.itemsize else "S1").astype(dt if dt.kind != "V" else "S2")
        a = (a.astype(dt) if dt.kind != "V" else np.frombuffer(a.tobytes() + b"\0" * (n * dt.itemsize), dt, n) if dt.itemsize else np.empty(n, dt)).reshape(shape)
    else:
        a = rng.integers(0, 40, n).astype(dt).reshape(shape)
    if how == "ro":
        a = a.copy(); a.flags.writeable = False
    elif how == "rev" and a.ndim:
        a = a[::-1]
    elif how == "step" and a.ndim:
        a = np.repeat(a, 2, axis=0)[::2]
    elif how == "zero" and a.size:
        a = np.lib.stride_tricks.as_strided(a, a.shape, (0,) * a.ndim)
    elif how == "F":
        a = np.asfortranarray(a)
    elif how == "unal" and not dt.hasobject and a.dtype.itemsize:
        b = np.empty(a.nbytes + 1, np.uint8)
        c = np.ndarray(a.shape, a.dtype, b, 1); c[...] = a; a = c
    elif how == "swap" and not dt.hasobject:
        a = a.astype(a.dtype.newbyteorder("S"))
    elif how == "sub":
        a = a.view(Sub)
    elif how == "mat" and a.ndim == 2:
        a = np.asmatrix(a)
    elif how == "ma":
        a = np.ma.array(a)
    elif how == "rec" and dt.names:
        a = a.view(np.recarray)
    elif how == "mix" and a.ndim == 2:
        a = a.T
    return a

def build(d, pool):
    k = d[0]
    if k == "py": return d[1]
    if k == "int": return int(d[1])
    if k == "float": return float(d[1])
    if k == "bytes": return b"abc"
    if k == "list": return [build(x, pool) for x in d[1]]
    if k == "tuple": return tuple(build(x, pool) for x in d[1])
    if k == "dict": return {str(i): build(x, pool) for i, x in enumerate(d[1])}
    if k == "arr":
        a = arr(d, pool); pool.append(a); return a
    if k == "npsc": return np.dtype(d[1]).type(d[2])
    if k == "slice": return slice(*d[1])
    if k == "dots": return Ellipsis
    if k == "dtype": return np.dtype(d[1])
    if k == "type": return np.dtype(d[1]).type
    if k == "fun": return len
    if k == "weird": return Weird()
    if k == "liar": return Liar(d[1])
    if k == "gen": return (x for x in range(3))
    if k == "cyc":
        l = []; l.append(l); return l
    if k == "same": return pool[d[1] % len(pool)] if pool else None
    if k == "surr": return "ad\udc80d"
    if k == "void": return np.zeros(1, [("x", "i4")])[0]
    raise ValueError(k)

def snap(a):
    """what must not change in an argument"""
    if isinstance(a, np.ndarray):
        r = (a.dtype.str, a.shape, a.strides, a.flags.writeable)
        return r + (np.asarray(a).tobytes(),)
    if isinstance(a, (list, tuple)) and not (len(a) == 1 and a[0] is a):
        return (type(a), [snap(x) for x in a])
    if isinstance(a, dict):
        return {k: snap(v) for k, v in a.items()}
    return None

def metrics():
    m = LIBC.mallinfo2() if LIBC else None
    live = VMEM.vmem_live() if VMEM else 0
    return [sys.getallocatedblocks(), live, (m.uordblks + m.hblkhd) if m else 0]
LIBC = VMEM = None
def load():
    global LIBC, VMEM
    if LIBC is None:
        import ctypes, vmem
        class info(ctypes.Structure):
            _fields_ = [(n, ctypes.c_size_t) for n in ("arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks", "uordblks", "fordblks", "keepcost")]
        LIBC = ctypes.CDLL(None)
        LIBC.mallinfo2.restype = info
        VMEM = vmem.LIB

def leak_of(once, reps, refs, confirm=True):
    """call once() again and again; -> what grew with every call: [name, index in refs, per call] """
    import time
    load()
    if not gc.get_freeze_count():
        gc.collect(); gc.freeze()          # what was there before is not walked again and again
    t = time.monotonic()
    once(); once()
    t = (time.monotonic() - t) / 2
    n = max(4, min(reps, int(0.15 / (t + 1e-7))))
    out = _rounds(once, n, refs, 2, 4)
    if out and confirm:                    # caches of the interpreter settle after some hundred calls
        n = max(20, 4 * n)
        out = _rounds(once, n, refs, 3, 2 * n)
    return out

def _rounds(once, n, refs, rounds, warm):
    for _ in range(warm):
        once()
    old = gc.isenabled(); gc.disable()
    gc.collect()
    marks = [[sys.getrefcount(x) for x in refs] + metrics()]
    for r in range(rounds):
        for _ in range(n):
            once()
        gc.collect()
        marks.append([sys.getrefcount(x) for x in refs] + metrics())
    if old: gc.enable()
    out = []
    for i in range(len(refs) + 3):
        diff = [b[i] - a[i] for a, b in zip(marks, marks[1:])]
        k = i - len(refs)
        least = (0.45 if n >= 60 or n <= 3 else 0.9, 0.45, 12)[k] if k >= 0 else 0.45
        if k == 0 and max(diff) - min(diff) > 0.1 * n + 2:
            continue                       # not so many with every call
        if min(diff) >= n * least or (k < 0 and max(diff) <= -n * least):
            out.append([("blocks", "arrays", "bytes")[k] if k >= 0 else "references", i if k < 0 else -1, sum(diff) / n / rounds])
    return out

SINGLES = [np.dtype(c) for c in "?bBhHiIlLqQefdgFDGSUVOMm"] + [np.ndarray, np.float64, np.int64, np.bool_, dict, ()]

def result_of(r):
    return type(r).__name__

@fn("junk")
def _junk(d):
    import vfuncs
    f = np if vfuncs.pn is None else vfuncs.pn
    for p in d["f"].split("."):
        f = getattr(f, p)
    pool = []
    a = [build(x, pool) for x in d["a"]]
    kw = {k: build(v, pool) for k, v in d["kw"].items()}
    before = [snap(x) for x in a] + [snap(v) for v in kw.values()]
    first = []
    def once():
        try:
            r = ("ok", result_of(f(*a, **kw)))
        except Exception as e:
            r = ("exc", type(e).__name__, str(e)[:200])
        if not first:
            first.append(r)
    with np.errstate(all="ignore"):
        once()
        after = [snap(x) for x in a] + [snap(v) for v in kw.values()]
        changed = [i for i, (x, y) in enumerate(zip(before, after)) if x != y]
        del before, after
        leaks = leak_of(once, d["reps"], pool + SINGLES) if d["reps"] else []
    return [list(first[0]), changed, leaks]

@fn("junkoom")
def _junkoom(d):
    """the call undisturbed, with one of its allocations failing, and undisturbed again; the arguments are new for every call"""
    import vfuncs, voom
    f = np if vfuncs.pn is None else vfuncs.pn
    for p in d["f"].split("."):
        f = getattr(f, p)
    def call(arm=None):
        pool = []
        a = [build(x, pool) for x in d["a"]]
        kw = {k: build(v, pool) for k, v in d["kw"].items()}
        try:
            with np.errstate(all="ignore"):
                if arm is None:
                    r = f(*a, **kw)
                else:
                    with arm:
                        r = f(*a, **kw)
            try:
                return "ok", type(r).__name__, vexec.pickle.dumps(vexec.pack(vexec._known(r)))
            except Exception:
                return "ok", type(r).__name__, b""
        except Exception as e:
            return "exc", type(e).__name__, str(e)[:200]
    o = d["oom"]
    first = call()
    count = voom.Arm()
    call(count)
    n = count.counts[o["kind"]]
    if not n:
        return [0, 0, 0, list(first), [], [], []]
    at = 1 + o["k"] % n
    arm = voom.Arm(o["kind"], at, o["sticky"])
    bad = call(arm)
    after = call()
    leaks = leak_of(lambda: call(voom.Arm(o["kind"], at, o["sticky"])), o["reps"], SINGLES) if o["reps"] else []
    return [n, at, arm.fired, list(first), list(bad), list(after), leaks]
