"""Failing allocations in this process: native/voom.c (preloaded) for pnumpy's own, native/vmem.c for the data of arrays."""
import ctypes, os, time
L = None
def load():
    global L
    if L is not None:
        return L
    L = ctypes.CDLL(None)
    L.voom_count.restype = L.voom_fired.restype = ctypes.c_long
    L.voom_arm.argtypes = [ctypes.c_long] * 3
    L.voom_range.argtypes = [ctypes.c_size_t] * 4
    r = {}
    for l in open("/proc/self/maps"):
        for k in ("_pnumpy.", "_multiarray_umath."):
            if k in l:
                a, b = [int(x, 16) for x in l.split()[0].split("-")]
                o = r.get(k, (a, b))
                r[k] = (min(a, o[0]), max(b, o[1]))
    L.voom_range(*r.get("_pnumpy.", (0, 0)), *r["_multiarray_umath."])
    L.voom_python()
    return L

class Arm:
    """around every call of a step; kinds: own (malloc of the extension), py (interpreter objects), data (array data)"""
    def __init__(self, kind=None, at=0, sticky=0):
        self.kind, self.at, self.sticky = kind, at, sticky
        self.left = at
        self.counts = {"own": 0, "py": 0, "data": 0}
        self.fired = 0
    def __enter__(self):
        import vmem
        k = self.kind
        a = {x: (self.left if x == k and self.left > 0 else 0) for x in self.counts}
        if vmem.LIB: vmem.LIB.vmem_fail(a["data"], self.sticky)
        load().voom_arm(a["own"], a["py"], self.sticky)
    def __exit__(self, *e):
        import vmem
        L.voom_disarm()
        n = {"own": L.voom_count(0), "py": L.voom_count(1), "data": vmem.LIB.vmem_failcount() if vmem.LIB else 0}
        self.fired += L.voom_fired() + (vmem.LIB.vmem_failfired() if vmem.LIB else 0)
        if vmem.LIB: vmem.LIB.vmem_fail(0, 0)
        for x in n:
            self.counts[x] += n[x]
        if self.kind:
            self.left -= n[self.kind]
            if self.sticky and self.fired:
                self.left = 1
        return False

def run(case, Prepared, pn):
    """the case undisturbed; then with its k-th allocation failing; then undisturbed again"""
    o = case["oom"]
    p = Prepared(case, pn, None)
    r = p.outcome(*p.execute())
    count = Arm()
    p = Prepared(case, pn, None); p.arm = count
    p.execute()
    n = count.counts[o["kind"]]
    r["allocs"] = n
    if not n:
        return r
    at = 1 + o["k"] % n
    f = Arm(o["kind"], at, o["sticky"])
    p = Prepared(case, pn, None); p.arm = f
    r["oom"] = p.outcome(*p.execute())
    r["fired"] = f.fired
    r["at"] = at
    p = Prepared(case, pn, None)
    t = time.monotonic()
    r["after"] = p.outcome(*p.execute())
    t = time.monotonic() - t
    if f.fired and o.get("reps") and t < 0.02:
        import vjunk
        q = Prepared(case, pn, None)
        def once():
            q.restore()
            q.arm = Arm(o["kind"], at, o["sticky"])
            q.execute()
        r["leaks"] = vjunk.leak_of(once, o["reps"], q.A + vjunk.SINGLES)
    return r
