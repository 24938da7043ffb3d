"""How much of the work of an operation is done by worker threads (runs in the target)."""
import os, threading, time
import numpy as np

def cpu(tid):
    return time.clock_gettime_ns((~tid << 3) | 6)        # the CPU clock of a thread of this process

def snap():
    r = {}
    for t in map(int, os.listdir("/proc/self/task")):
        try:
            r[t] = cpu(t)
        except OSError:
            pass
    return r

def data(dt, n, seed):
    rng = np.random.default_rng(seed)
    if dt == "?":
        return rng.integers(0, 2, n).astype("?")
    if np.dtype(dt).kind == "f":
        return rng.uniform(0.05, 0.95, n).astype(dt)
    return rng.integers(1, 7, n).astype(dt)

def make(pn, s):
    """-> a function that executes the operation once"""
    dt, n = np.dtype(s["dt"]) if s["dt"] != "rec" else None, s["n"]
    k = s["k"]
    if k == "rec":
        a = np.zeros(n, [("a", "f8"), ("b", "i4"), ("c", "S5")])
        return lambda: pn.recarray_to_colmajor(a)
    rows, st, dtc = s.get("rows", 1), s.get("st", 1), dt.char if dt.char in "qQ" else s["dt"]
    def arr(seed):
        a = data(dtc, rows * n * abs(st) + 8, seed)[:rows * n * abs(st)].reshape(rows, n * abs(st))
        return a[0, ::st] if rows == 1 else a[:, ::st]
    a, b = arr(1), arr(2)
    if k == "unary":
        u = getattr(np, s["f"]); o = u(a)
        return lambda: u(a, out=o)
    if k == "binary":
        u = getattr(np, s["f"])
        if s.get("scalar"):
            b = b.flat[0]
        o = u(a, b)
        return lambda: u(a, b, out=o)
    if k == "reduce":
        u = getattr(np, s["f"])
        return (lambda: u.reduce(a, axis=-1, dtype=dt)) if s["f"] not in ("logical_and", "logical_or") else (lambda: u.reduce(a, axis=-1))
    if k == "sort":
        return lambda: np.sort(a, axis=-1, kind=s["f"])
    if k == "argsort":
        return lambda: np.argsort(a, axis=-1, kind=s["f"])
    if k == "lexsort":
        f = getattr(pn, s["f"])
        return lambda: f([a, b])
    if k == "mask":
        m = data("?", n, 3)
        return lambda: pn.getitem(a, m)
    if k == "fancy":
        i = np.random.default_rng(3).integers(0, n, n).astype(s["f"])
        return lambda: pn.getitem(a, i)
    if k == "arange":
        return lambda: np.arange(n, dtype=dt)
    raise ValueError(k)

def measure(f, secs, least=1):
    a, t0 = snap(), time.monotonic_ns()
    n = 0
    while n < least or time.monotonic_ns() - t0 < secs * 1e9:
        f(); n += 1
    b, wall = snap(), time.monotonic_ns() - t0
    me = threading.get_native_id()
    d = {t: b[t] - a.get(t, 0) for t in b}
    return max(wall, 1), d.pop(me), sorted(d.values(), reverse=True)

def happen(e, f):
    """things after which the workers must still be there"""
    if e == "fork":
        p = os.fork()
        if p == 0:
            f(); os._exit(0)
        os.waitpid(p, 0)
    elif e == "thread":
        t = threading.Thread(target=f); t.start(); t.join()
    elif e == "threads":
        ts = [threading.Thread(target=f) for _ in range(4)]
        for t in ts: t.start()
        for t in ts: t.join()
    elif e == "raise":
        try:
            with np.errstate(all="raise"):
                np.divide(np.ones(200000), np.zeros(200000))
        except FloatingPointError:
            pass
    elif e == "sleep":
        time.sleep(0.01)
    elif e == "burst":
        a = np.ones(70000)
        for _ in range(1500):
            np.add(a, a, out=a)

def share(pn, s):
    """-> [enough, calls measured, ms of the caller, ms of the workers...]; want: "some" work of the workers, "none", or at most "cap" of them"""
    if len(os.sched_getaffinity(0)) < 2:
        return [True]
    f = make(pn, s)
    f()
    for e in s.get("events", []):
        happen(e, f)
    want = s["want"]
    if want == "idle":
        f = lambda: time.sleep(0.002)
    end = time.monotonic() + s.get("patience", 12)
    secs = 0.03 if want == "cap" else 0.004
    if want != "some":
        time.sleep(0.002)
    while True:
        wall, main, w = measure(f, secs)
        tot = sum(w)
        if want == "some":
            ok = tot > (0.1 if secs < 0.2 else 0.01) * main and w and w[0] > 1e5
        elif want in ("none", "idle"):
            ok = tot <= 0.1 * wall + 1e6
        else:
            ok = tot <= (s["cap"] + 0.35) * wall + 1e6
        if ok or time.monotonic() > end:
            return [bool(ok), round(wall / 1e6, 3), round(main / 1e6, 3), [round(x / 1e6, 3) for x in w if x > 5e4]]
        secs = min(secs * 2, 0.5)
