"""Named operations used by cases (besides np.*, pn.* and methods)."""
import sys
import numpy as np
from vexec import fn
pn = None

@fn("getitem_op")
def _getitem(a, i):
    return a[i]

def _rec_result(a, d):
    """columns plus: is every column independent memory, C contiguous and writeable"""
    if not isinstance(d, dict):
        return d
    ok = [bool(not np.shares_memory(a, v) and v.flags.c_contiguous and v.flags.writeable) if v.size else True for v in d.values()]
    cols = list(d.values())
    for i in range(len(cols)):
        for j in range(i):
            if cols[i].size and cols[j].size and np.shares_memory(cols[i], cols[j]):
                ok[i] = False
    return (d, ok)

@fn("rec_pn")
def _rec_pn(a, *args):
    return _rec_result(a, pn.recarray_to_colmajor(a, *args))

@fn("rec_ref")
def _rec_ref(a, *args):
    return _rec_result(a, {n: a[n].copy() for n in a.dtype.names})

@fn("rec_obj")
def _rec_obj(dt, n):
    a = np.zeros(n, dt)
    for name in dt.names:
        s = dt.fields[name][0]
        if s.hasobject:
            a[name] = [("o", i) for i in range(n)]
        elif s.kind in "iuf" and not s.subdtype:
            a[name] = np.arange(n) % 100
    return a

@fn("derived")
def _derived(op, v, w):
    if op == "unique": return np.unique(v)
    if op == "unique_all": return np.unique(v, return_index=True, return_inverse=True, return_counts=True)
    if op == "median": return np.median(v)
    if op == "percentile": return np.percentile(v, [0, 10, 50, 90, 100]) if v.size else None
    if op == "partition":
        if not v.size: return None
        k = v.size // 3
        p = np.partition(v, k); q = np.argpartition(v, k)
        return (p[k], v[q][k], np.sort(p), np.sort(q))
    if op == "isin": return np.isin(v, w)
    if op == "union1d": return np.union1d(v, w)
    if op == "setdiff1d": return np.setdiff1d(v, w)
    if op == "intersect1d": return np.intersect1d(v, w)
    if op == "digitize": return np.digitize(v, np.unique(w[w == w]))
    if op == "histogram":
        b = np.unique(w[w == w])
        return np.histogram(v, b if b.size > 1 else 5)
    if op == "sort_complex": return np.sort_complex(v) if v.dtype.kind in "iufb" else None
    if op == "count": return np.count_nonzero(v)
    if op == "nonzero": return np.nonzero(v)
    if op == "argwhere": return np.argwhere(v)
    if op == "clip": return np.clip(v, 0, 3)
    if op == "bincount": return np.bincount(np.abs(v.astype("i4")))
    if op == "where": return np.where(v == v[::-1], v, v[::-1])
    if op == "allclose":
        return (np.isclose(v, v[::-1]), np.allclose(v, v))
    if op == "lexi2": return np.lexsort((v, v == v[::-1]))
    raise ValueError(op)

class Sub(np.ndarray):
    pass

@fn("wrap_call")
def _wrap_call(d):
    box = []
    r = _wrapped(d, box)
    a = box[0]                     # the argument, as it is left
    return r, (a.filled(99), np.ma.getmaskarray(a)) if isinstance(a, np.ma.MaskedArray) else np.asarray(a) if isinstance(a, np.ndarray) else a

def _wrapped(d, box):
    m = pn if pn is not None else np
    rng = np.random.default_rng([d["seed"], d["n"]])
    n = d["n"]
    x = rng.integers(-9, 10, n)
    f = d["form"]
    if f == "list": a = x.tolist()
    elif f == "nested": a = [x.tolist(), x[::-1].tolist()]
    elif f == "scalar": a = 5
    elif f == "tuple": a = tuple(float(q) for q in x)
    elif f == "matrix": a = np.matrix(x.reshape(1, -1))
    elif f == "masked": a = np.ma.array(x, mask=x > 5)
    elif f == "struct":
        a = np.zeros(n, [("x", "i4"), ("y", "f8")]); a["x"] = x; a["y"] = x[::-1]
    elif f == "recarray":
        a = np.rec.array(np.zeros(n, [("x", "i4"), ("y", "f8")])); a.x = x; a.y = x[::-1]
    elif f == "object": a = np.array(x.tolist(), dtype=object)
    elif f == "empty": a = np.zeros((0, 3))
    elif f == "subclass": a = x.view(Sub)
    elif f == "0d": a = np.array(7.5)
    elif f == "F": a = np.asfortranarray(np.tile(x, (3, 1)))
    elif f == "ragged": a = [[1, 2], [3]]
    elif f == "str": a = [str(q) for q in x]
    elif f == "bytes": a = [b"%d" % q for q in x]
    else: a = None
    box.append(a)
    op, kw = d["op"], {}
    if op in ("sort", "argsort"):
        if d["axis"] != "absent": kw["axis"] = d["axis"]
        if d["kind"]: kw["kind"] = d["kind"]
        if d["order"]: kw["order"] = d["order"]
    elif op in ("argmin", "argmax"):
        if d["axis"] != "absent": kw["axis"] = d["axis"]
        if d["out"]: kw["out"] = np.zeros((), "i8") if d["out"] == "ok" else np.zeros((2, 2, 2), "i2")
    elif op == "searchsorted":
        r = getattr(m, op)(np.sort(np.asarray(a, dtype=object if a is None else None)) if f not in ("masked", "ragged", "matrix") else x, [3, 1, -2], side="right")
        return (type(r).__name__, np.asarray(r))
    elif op == "lexsort":
        if f in ("list", "tuple", "str", "bytes"):
            a = [np.array(a), x]
        elif f in ("subclass", "object"):
            a = (a, x)
        elif f == "masked":
            a = [x, np.asarray(a)]
        r = getattr(m, op)(a)
        return np.asarray(r).tolist()
    r = getattr(m, op)(a, **kw)
    if isinstance(r, np.ma.MaskedArray):
        return ("masked", r.filled(99), np.ma.getmaskarray(r))
    if op == "argsort" and d["kind"] != "stable":
        # any permutation that sorts
        q = a.filled(99) if f == "masked" else np.asarray(a)
        if q.dtype.names is None and q.ndim == 1 and q.size:
            return (type(r).__name__, np.sort(np.asarray(r)), q[np.asarray(r)])
        return (type(r).__name__, np.asarray(r).shape)
    return (type(r).__name__, np.asarray(r))

@fn("getitem_model")
def _getitem_model(a, i, *default):
    """pn.getitem for 1-d arrays: boolean mask, or integers where out of range gives the default"""
    if i.dtype.kind == "b":
        if a.size != i.size:
            raise ValueError("length")
        return a.ravel()[i.ravel()]
    n = a.size
    j = i.ravel()
    a = a.ravel()
    if i.dtype.kind == "u":
        ok = j < n
    else:
        ok = (j.astype(object) >= -n) & (j.astype(object) < n) if j.size < 0 else (j.astype("i8") >= -n) & (j.astype("i8") < n)
    out = np.zeros(j.shape, a.dtype)
    if ok.any():
        out[ok] = a[j[ok].astype("i8")]
    if not ok.all():
        if default and default[0] is not None:
            d = default[0]
        else:
            k = a.dtype.kind
            d = (np.nan if k == "f" and a.dtype.itemsize > 2 else np.iinfo(a.dtype).min if k == "i" else np.iinfo(a.dtype).max if k == "u" else False if k == "b"
                 else "NaT" if k in "mM" else b"" if k == "S" else "" if k == "U" else 0)
        out[~ok] = np.array(d).astype(a.dtype) if a.dtype.kind != "V" else np.zeros((), a.dtype)
    return out

@fn("getitem_obj")
def _getitem_obj(n, ix):
    import sys, gc
    a = np.empty(n, object)
    objs = [("o", i) for i in range(n)]
    a[:] = objs
    if n == 0:
        return True
    r = pn.getitem(a, ix)
    cnt = [sys.getrefcount(o) for o in objs[:50]]
    base = 4
    held = sum(1 for _ in r)
    del r
    return all(sys.getrefcount(o) <= c for o, c in zip(objs, cnt)) and min(sys.getrefcount(o) for o in objs) >= 2

@fn("index_op")
def _index_op(op, a, i, w):
    if op == "get": return a[i]
    if op == "take":
        return a.take(np.flatnonzero(i)) if i.dtype.kind == "b" else np.take(a, i.astype("i8"), mode="wrap") if a.size else None
    if op == "compress": return np.compress(i, a) if i.dtype.kind == "b" else np.compress(i[:a.size] != 0, a)
    if op == "set":
        a[i] = w if i.dtype.kind == "b" or len(np.unique(i % max(a.size, 1))) == i.size else w[:1] if w.size else w
        return None
    if op == "setscalar":
        a[i] = w[0]
        return None
    if op == "iadd":
        a[i] += w[0]
        return None
    if op == "extract": return np.extract(i, a) if i.dtype.kind == "b" else a[i]
    if op == "putmask":
        np.putmask(a, i if i.dtype.kind == "b" else np.resize(i != 0, a.shape), w)
        return None
    if op == "np.where": return np.where(i if i.dtype.kind == "b" else np.resize(i != 0, a.shape), a, a[::-1])
    if op == "choose2": return a[i][::-1]
    if op == "rows":
        b = np.stack([a, a[::-1]], 1) if a.dtype.names is None else a
        return b[i]
    if op == "mixed":
        if a.size == 0: return None
        b = np.broadcast_to(a, (3,) + a.shape)
        return b[1:, i]
    raise ValueError(op)

class Sub(np.ndarray):
    """an ndarray subclass that remembers what it was made from"""
    def __array_finalize__(self, o):
        self.tag = getattr(o, "tag", 0) + 1 if o is not None else 1
class Frozen(np.ndarray):
    def __getitem__(self, i):
        return ("mine", np.asarray(self)[i])

@fn("hooked_index")
def _hooked_index(d, a):
    import gc
    rng = np.random.default_rng([d["seed"], 5])
    objs = None
    if d["dt"] == "O":
        objs = [("o", i) for i in range(a.size)]
        b = np.empty(a.shape, object)
        if a.size: b.reshape(-1)[:] = np.fromiter(objs, object, a.size)
        a = b[::-1] if a.ndim and d["mlay"] == "neg" else b
    elif d["dt"] == "recO":
        objs = [("o", i) for i in range(a.size)]
        b = np.zeros(a.shape, [("x", "i4"), ("o", object)])
        if a.size:
            b["o"].reshape(-1)[:] = np.fromiter(objs, object, a.size)
            b["x"] = np.arange(a.size).reshape(a.shape)
        a = b
    if d["kind"] == "matrix" and a.ndim: a = np.matrix(a.reshape(a.shape[0], -1)) if a.size else a
    elif d["kind"] == "ma": a = np.ma.array(a, mask=rng.random(a.shape) < .3)
    elif d["kind"] == "sub": a = a.view(Sub)
    elif d["kind"] == "newsub":
        _hooked_index.later.append(type("New", (np.ndarray,), {}))      # inherits what is installed now
        a = a.view(_hooked_index.later[d["seed"] % len(_hooked_index.later)])
        del _hooked_index.later[:-30]
    elif d["kind"] == "frozen": a = a.view(Frozen)
    elif d["kind"] == "memmap" and objs is None: a = a.view(np.memmap)
    sh = a.shape
    sh = {"same": sh, "same_other": sh[::-1], "T": sh[::-1], "flat": (a.size,), "longer": sh[:-1] + (sh[-1] + 1,) if sh else (1,), "shorter": sh[:-1] + (max(0, sh[-1] - 1),) if sh else (0,),
          "first": sh[:1], "0d": (), "empty": (0,), "one": (1,) * len(sh)}[d["mask"]]
    n = int(np.prod(sh))
    if d["idt"] == "?":
        i = (rng.random(n) < d["p"]).reshape(sh)
    else:
        lim = len(a) if a.ndim else 1
        t = np.dtype("i8" if d["idt"] in ("O", "m8[s]") else d["idt"])
        lo, hi = (-lim if t.kind == "i" else 0), lim - 1
        if t.itemsize == 1: lo, hi = max(lo, -128), min(hi, 127)
        i = rng.integers(lo, max(hi, lo), n, endpoint=True) if lim else np.zeros(n, "i8")
        if d["oob"] and n: i[rng.integers(0, n)] = min(lim, 127)
        i = i.astype(d["idt"]).reshape(sh)
    m = d["mlay"]
    if m == "F": i = np.asfortranarray(i)
    elif i.ndim and m == "step": i = np.repeat(i, 2, -1)[..., ::2]
    elif i.ndim and m == "neg": i = np.ascontiguousarray(i[::-1])[::-1]
    elif i.ndim and m == "zero" and i.size: i = np.broadcast_to(i[:1], i.shape)
    how = d["how"]
    if how == "list": i = i.tolist()
    elif how == "tuple": i = (i,)
    elif how == "tuple1": i = (i, 0)
    elif how == "tuple_rest": i = (slice(None), i)
    elif how == "matrix": i = np.matrix(i) if i.ndim in (1, 2) else i
    elif how == "sub": i = i.view(Sub)
    elif how == "ellipsis": i = (i, Ellipsis)
    elif how == "newaxis": i = (None, i)
    elif how == "scalar": i = i.reshape(-1)[0] if i.size else 0
    elif how == "slice": i = slice(int(np.sum(i != 0)) % 7, None, 2)
    elif how == "object": i = i.astype(object)
    elif how == "neg": i = ~i if i.dtype.kind == "b" else i
    elif how == "float": i = i.astype("f8")
    try:
        r = a[i]
    except Exception as e:
        return type(e).__name__, str(e)
    out = [type(r).__name__, getattr(r, "tag", None)]
    if isinstance(r, np.ndarray):
        out += [r.strides if r.size else None, r.flags.c_contiguous, r.flags.f_contiguous, r.flags.writeable, r.flags.owndata, np.shares_memory(np.asarray(r), np.asarray(a)) if objs is None and r.size < 10000 else None]
    if objs is not None:
        gc.collect()
        out += [[sys.getrefcount(o) for o in objs[:60]], repr(r)[:3000]]
        del r, a, b
        i = None
        out.append([sys.getrefcount(o) for o in objs[:60]])
        return out
    return out, np.ma.getdata(r) if isinstance(r, np.ma.MaskedArray) else np.asarray(r) if isinstance(r, np.ndarray) else r, np.ma.getmaskarray(r) if isinstance(r, np.ma.MaskedArray) else None

_hooked_index.later = []

@fn("arange_op")
def _arange_op(d):
    n, dt = d["n"], d["dt"]
    isdate = dt is not None and np.dtype(dt).kind in "mM"
    start = d["fstart"] if d["fstart"] is not None and not isdate else d["start"]
    step = d["fstep"] if d["fstep"] is not None and not isdate else d["step"]
    if d["form"] != "step":
        step = 1
    if step == 0:
        step = 1
    if d["form"] == "stop":
        start = 0
    if isdate:
        start %= 1000
        n = min(n, 400000 // max(abs(step), 1)) if abs(step) < 1000 else 3
        if np.dtype(dt).kind == "M":
            start = np.array(start, "i8").astype(dt)[()]
            if d["form"] == "stop":
                return np.arange(start, n, dtype=dt)
            return np.arange(start, start + np.timedelta64(step * n), np.timedelta64(step), dtype=dt)
    op = d["op"]
    if op == "linspace":
        return np.linspace(start, start + step, n, dtype=None if isdate else dt)
    if op == "ogrid":
        return np.ogrid[0:min(n, 1000):3]
    if op == "indices":
        return np.indices((min(n, 500), 3))
    if op == "r_":
        return np.r_[0:n, 1:min(n, 50):2]
    if op == "tile":
        return np.tile(np.arange(min(n, 1000)), 3)
    k = (n - 0.5) if isinstance(step, float) else n
    stop = start + step * k
    if isinstance(stop, float) and np.isfinite(stop) and np.dtype(dt or "f8").kind in "iu":
        pass
    kw = {} if dt is None else {"dtype": dt}
    # numpy decides the length from stop, start and step: cap what may be allocated
    with np.errstate(all="ignore"):
        cnt = abs((stop - start) / step)
    if not cnt <= 400000:
        return None
    if d["form"] == "stop":
        return np.arange(stop, **kw)
    if d["form"] == "startstop":
        return np.arange(start, stop, **kw)
    return np.arange(start, stop, step, **kw)

@fn("fill_op")
def _fill_op(op, a, seed):
    n = a.size
    v = a[seed % n] if n else a.dtype.type(0)
    if op == "full": return np.full(n, v)
    if op == "fill":
        b = a.copy(); b.fill(v); return b
    if op == "zeros": return np.zeros_like(a)
    if op == "ones": return np.ones_like(a) if a.dtype.kind not in "SUM" else None
    if op == "astype": return a.astype("f8") if a.dtype.kind in "biuf" else None
    if op == "nonzero": return a.nonzero()
    if op == "copyto":
        b = np.zeros_like(a); np.copyto(b, a, where=np.arange(n) % 3 == 0); return b
    if op == "repeat": return np.repeat(a[:20000], np.arange(min(n, 20000)) % 4)
    if op == "eye": return np.eye(min(n, 300), dtype=a.dtype if a.dtype.kind in "biufc" else "i4")
    if op == "putscalar":
        b = a.copy(); b[...] = v; return b
    if op == "argmaxbool": return (a == v).argmax() if n else None
    raise ValueError(op)

# ---------------------------------------------------------------- configuration of the target
_perfunc = {}
_BURST = np.zeros(65536, bool)
def _apply(pn, ops, reset=True):
    """reset everything to the state after import, then apply the operations; -> their results"""
    import vexec
    if reset:
        pn.atop_enable(); pn.thread_enable(); pn.ledger_disable(); pn.recycler_disable(); pn._pnumpy.hook_disable()
        if _apply.default is None:
            _apply.default = pn.thread_getworkers()
        pn.thread_setworkers(_apply.default)
        if _apply.zig:
            pn.thread_zigzag(); _apply.zig = False
        for k, v in list(_perfunc.items()):
            pn.atop_setworkers(k[0], k[1], v)
        _perfunc.clear()
    out = []
    for op in ops:
        name, args = op[0], list(op[1:])
        try:
            if name == "setworkers_of":
                f, dt, n = args
                num = np.dtype(dt).num
                r = pn.atop_setworkers(f, num, n)
                if r is not False and (f, num) not in _perfunc:
                    _perfunc[(f, num)] = r
            elif name in ("hook", "unhook"):
                r = getattr(pn._pnumpy, "hook_enable" if name == "hook" else "hook_disable")()
            elif name == "burst":       # many threaded operations: all the way round the ring of work items
                for _ in range(args[0]):
                    np.equal(_BURST, _BURST, out=_BURST)
                r = None
            else:
                r = getattr(pn, name)(*args)
            if name == "thread_zigzag":
                _apply.zig = bool(r)
            out.append((name, r if isinstance(r, (int, bool, str, type(None))) else type(r).__name__))
        except Exception as e:      # noqa
            out.append((name, "exc:" + type(e).__name__))
    return out
_apply.default = None
_apply.zig = False
import vexec as _vexec
_vexec.CFG = _apply

# ---------------------------------------------------------------- the management interface (C14)
def _plainval(r):
    if isinstance(r, bool) or r is None:
        return repr(r)
    if isinstance(r, (int, str)):
        return r
    if isinstance(r, dict):
        return {"dict": len(r)}
    return type(r).__name__

@fn("mgmt")
def _mgmt(ops):
    """apply management calls one after the other; -> what each returned"""
    import time, math
    out = []
    for op in ops:
        name, args = op[0], list(op[1:])
        try:
            if name == "reset":
                pn.atop_enable(); pn.thread_enable(); pn.ledger_disable(); pn.recycler_disable(); pn._pnumpy.hook_disable()
                pn.thread_setworkers(1000)
                if pn.thread_zigzag():
                    pn.thread_zigzag()
                r = [pn.thread_getworkers(), len(__import__("os").sched_getaffinity(0))]
            elif name == "keys":
                r = sorted([list(k) for k in pn.atop_info()], key=repr)
            elif name == "info":
                r = pn.atop_info(*args)
                if isinstance(r, dict):
                    r = {"MaxThreads": r["MaxThreads"], "types": all(isinstance(k, str) and isinstance(v, int) for k, v in r.items()),
                         "old": bool(r["pOldFunc"]), "keys": sorted(r)}
                else:
                    r = _plainval(r)
            elif name == "utc":
                a = time.time_ns(); r = pn.timer_getutc(); b = time.time_ns()
                r = [type(r).__name__, a - 2000000 <= r <= b + 2000000]
            elif name == "tsc":
                v = [pn.timer_gettsc() for _ in range(args[0])]
                r = [all(type(x) is int and x > 0 for x in v), all(x <= y for x, y in zip(v, v[1:]))]
            elif name == "cpustring":
                a, b = pn.cpustring(), pn.cpustring()
                r = [type(a).__name__, len(a) > 0, a == b, a.isprintable()]
            elif name == "cpu_count":
                r = pn.cpu_count_linux()
                r = [type(r).__name__, len(r), r[0] == __import__("os").sysconf("SC_NPROCESSORS_ONLN"), r[1] is None or (isinstance(r[1], int) and 0 < r[1] <= 4096)]
            elif name == "bench":
                q = pn.benchmark_func(getattr(np, args[0]), ctypes=[np.dtype(x).type for x in args[1]], sizes=[args[2]], unary=args[3], reduct=args[4], recycle=args[5],
                                      scalar=args[6], atop=args[7], thread=args[8])
                r = [type(q).__name__, len(q), bool((q > 0).all() and np.isfinite(q).all())]
            elif name == "compute":
                n = args[1]
                a = np.arange(n, dtype=args[2]) % 100
                want = [(i % 100) for i in range(0, n, max(1, n // 7))]
                f = getattr(np, args[0])
                got = f(a, a)[::max(1, n // 7)].tolist()
                g = {"add": lambda x: x + x, "subtract": lambda x: 0, "less": lambda x: False, "equal": lambda x: True, "maximum": lambda x: x}[args[0]]
                r = got == [g(x) for x in want]
            elif name == "all":
                import pnumpy
                r = [x for x in pnumpy.__all__ if not hasattr(pnumpy, x)]
            else:
                r = _plainval(getattr(pn, name)(*args))
            out.append(r)
        except Exception as e:      # noqa
            out.append("exc:" + type(e).__name__)
    return repr(out)

@fn("cpufiles")
def _cpufiles(cpuinfo, stat, cores, sysconf):
    """cpu_count_linux with the given content of /proc/cpuinfo, /proc/stat, the topology files and sysconf"""
    import builtins, os, pnumpy.cpu as m
    import io
    keep = (builtins.open, os.sysconf, m.glob.glob)
    def fake(name, mode="r", *a, **k):
        name = os.fspath(name) if not isinstance(name, int) else name
        data = None
        if name == "/proc/cpuinfo": data = cpuinfo
        elif name == "/proc/stat": data = stat
        elif isinstance(name, str) and name.startswith("/sys/devices/system/cpu/"): data = cores[int(name.split("cpu/cpu")[1].split("/")[0])]
        else:
            return keep[0](name, mode, *a, **k)
        if data is None:
            raise FileNotFoundError(name)
        return io.BytesIO(data.encode()) if "b" in mode else io.StringIO(data)
    def sc(x):
        if x != "SC_NPROCESSORS_ONLN":
            return keep[1](x)
        if sysconf is None:
            raise ValueError("unrecognized configuration name")
        return sysconf
    def gl(p, **k):
        return ["/sys/devices/system/cpu/cpu%d/topology/core_cpus_list" % i for i in range(len(cores))] if p.endswith("core_cpus_list") else []
    builtins.open, os.sysconf, m.glob.glob = fake, sc, gl
    try:
        r = pn.cpu_count_linux()
        return (r[0], r[1])
    finally:
        builtins.open, os.sysconf, m.glob.glob = keep

@fn("workers")
def _workers(steps):
    """CPU time used by the worker threads (the threads of the process Python does not know) in each step"""
    import os, json, threading, time
    def times():
        py = {t.native_id for t in threading.enumerate()}
        out = {}
        for t in os.listdir("/proc/self/task"):
            if int(t) not in py:
                with open("/proc/self/task/%s/schedstat" % t) as f:
                    out[t] = int(f.read().split()[0])
        return out
    big, small = 2_000_000, 60_000
    pn.atop_enable(); pn.thread_enable()
    before = pn.thread_setworkers(7)
    rep = []
    try:
        for mode, k, op in steps:
            n = small if mode == "small" else big
            a = np.linspace(-1, 1, n); b = np.abs(a); i4 = (np.arange(n) * 7919 % 10007).astype("i4"); m = a > 0; o = np.empty(n); ob = np.empty(n, bool)
            f = {"add": lambda: np.add(a, b, out=o), "less": lambda: np.less(a, b, out=ob), "sum": lambda: i4.sum(dtype="i8"), "sqrt": lambda: np.sqrt(b, out=o), "sort": lambda: np.sort(i4),
                 "lexsort": lambda: pn.lexsort([i4, i4]), "mask": lambda: pn.getitem(a, m), "cast": lambda: np.negative(a, out=o)}[op]
            pn.thread_enable(); pn.thread_setworkers(k)
            if mode == "off":
                pn.thread_disable()
            f()
            time.sleep(0.005)
            t0, c, s = times(), 0, time.monotonic()
            while True:
                f(); c += 1
                now = times()
                used = {t: (v - t0.get(t, 0)) / 1e6 for t, v in now.items() if v - t0.get(t, 0) > 1_000_000}
                d = time.monotonic() - s
                if (d > 0.1 and used) or (mode != "on" and d > 0.15) or d > 20:
                    break
            time.sleep(0.01)
            p0, s2 = time.process_time(), time.monotonic()
            time.sleep(0.3)
            rep.append({"used": len(used), "times": used, "calls": c, "secs": d, "idle": time.process_time() - p0, "slept": time.monotonic() - s2, "cpus": len(os.sched_getaffinity(0))})
    finally:
        pn.thread_enable(); pn.thread_setworkers(before)
    return json.dumps(rep)

# ---------------------------------------------------------------- the ledger (C18)
@fn("ledger")
def _ledger(op, args, kw, pre):
    """-> what was printed by op with the ledger on, with it off again, and what the switch said"""
    import pnumpy as pn, vexec
    f = vexec.resolve(op, pn)
    vexec.stdout_text()
    for p in pre:
        getattr(pn, p)()
    pn.ledger_enable()
    said = [pn.ledger_isenabled()]
    try:
        with np.errstate(all="ignore"):
            t0 = pn.timer_gettsc()
            f(*args, **kw)
            cycles = pn.timer_gettsc() - t0
            on = vexec.stdout_text()
            said.append(pn.ledger_isenabled())
            pn.ledger_disable()
            said.append(pn.ledger_isenabled())
            f(*args, **kw)
            off = vexec.stdout_text()
            said.append(pn.ledger_isenabled())
    finally:
        pn.ledger_disable()
        pn.recycler_disable()
    return [on, off, [bool(x) for x in said], int(cycles)]

@fn("ledger_threads")
def _ledger_threads(d):
    """threads compute while this one switches the ledger; -> what was said after each switch and printed after the last"""
    import pnumpy as pn, threading, time, vexec
    vexec.stdout_text()
    stop = False
    bad = []
    def work(seed):
        rng = np.random.default_rng(seed)
        a = rng.integers(-9, 9, d["n"]).astype(d["dt"]); b = a[::-1].copy()
        want = [getattr(a, "__%s__" % o)(b) for o in d["ops"]]
        while not stop:
            for o, w in zip(d["ops"], want):
                if not np.array_equal(getattr(a, "__%s__" % o)(b), w):
                    bad.append(o); return
    t = [threading.Thread(target=work, args=(i,)) for i in range(d["threads"])]
    for x in t:
        x.start()
    wrong = []
    try:
        for i, pause in enumerate(d["switches"]):
            pn.ledger_enable()
            time.sleep(pause / 1e6)
            if not pn.ledger_isenabled():
                wrong.append("off while on, at %d" % i)
            pn.ledger_disable()
            time.sleep(pause / 1e6)
            if pn.ledger_isenabled():
                wrong.append("on while off, at %d" % i)
    finally:
        stop = True
        for x in t:
            x.join()
    lines = vexec.stdout_text()
    last = bool(pn.ledger_isenabled())
    a = np.zeros(d["n"], d["dt"]); a + a
    off = vexec.stdout_text()
    return [lines, wrong[:5], last, off, bad]

@fn("ledger_keys")
def _ledger_keys():
    import pnumpy as pn
    return sorted((k[0], int(k[1])) for k in pn.atop_info())

@fn("share_of")
def _share(spec):
    import vshare
    import pnumpy as pn
    return vshare.share(pn, spec)


@fn("huge_strided")
def _huge_strided(d, *vals):
    import vhuge
    return vhuge.strided(d, vals)

@fn("huge_long")
def _huge_long(d):
    import vhuge
    import pnumpy as pn
    return vhuge.long(pn, d)
