"""Target side: running a case in a forked child, in another Python thread, or several cases at once."""
import os, pickle, select, signal, sys, threading, time
import vexec, vmem

def run_fork(case, pn):
    """fork; the child runs the case and sends the outcome back.  With case["busy"], other Python threads of the parent
    keep the worker threads busy while the fork happens."""
    stop, ths = [], []
    if case.get("busy"):
        import numpy as np
        def hammer(k):
            a = np.ones(65536 + 1000 * k, "f4"); o = np.empty_like(a)
            while not stop:
                np.add(a, a, out=o); np.less(a, o)
        ths = [threading.Thread(target=hammer, args=(k,), daemon=True) for k in range(case["busy"])]
        for t in ths:
            t.start()
        time.sleep(0.002)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            signal.alarm(0)
            os.close(r)
            out = vexec.run_plain(case, pn)
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f, protocol=5)
            vexec._libc and vexec._libc.fflush(None)
            os._exit(0)
        except BaseException as e:      # noqa
            try:
                os.write(2, repr(e).encode())
            finally:
                os._exit(9)
    os.close(w)
    stop.append(1)
    for t in ths:
        t.join()
    f = os.fdopen(r, "rb")
    ok, _, _ = select.select([f], [], [], case.get("child_timeout", 30))
    if not ok:
        os.kill(pid, signal.SIGKILL); os.waitpid(pid, 0); f.close()
        return {"child": "hung"}
    data = f.read(); f.close()
    _, st = os.waitpid(pid, 0)
    if st:
        return {"child": "status %d" % st}
    return pickle.loads(data)

def run_thread(case, pn):
    box = []
    def go():
        try:
            vmem.LIB and vmem.install()
            box.append(vexec.run_plain(case, pn))
        except BaseException as e:      # noqa
            box.append(e)
    t = threading.Thread(target=go)
    t.start(); t.join()
    if isinstance(box[0], BaseException):
        raise box[0]
    return box[0]

def run_signals(case, pn):
    """a timer signal every case["sig"] microseconds; its handler may compute as well"""
    import numpy as np
    a = np.ones(66000, "f4"); m = a > 0; w = case.get("sigwork", 0)
    seen, inside = [0], []
    def handler(*_):
        seen[0] += 1
        if inside:             # a slow machine: signals arrive faster than they are handled
            return
        inside.append(1)
        if w:
            np.add(a, a)
        if w > 1:
            pn.getitem(a, m)
        inside.clear()
    old = signal.signal(signal.SIGUSR1, handler)
    stop = []
    me, pid = threading.main_thread().ident, os.getpid()
    def send():                # both kinds: to this thread, and to whichever thread of the process takes it
        k = 0
        while not stop:
            if k & 1:
                signal.pthread_kill(me, signal.SIGUSR1)
            else:
                os.kill(pid, signal.SIGUSR1)
            k += 1
            time.sleep(case["sig"] * 1e-6)
            end = time.monotonic() + 0.005
            while seen[0] < k and not stop and time.monotonic() < end:
                time.sleep(2e-5)
    t = threading.Thread(target=send, daemon=True)
    t.start()
    try:
        return vexec.run_plain(case, pn)
    finally:
        stop.append(1); t.join()
        signal.signal(signal.SIGUSR1, signal.SIG_IGN)

def run_multi(case, pn):
    """every case of case["multi"] in its own Python thread, repeated; -> the distinct outcomes of each"""
    cases, reps = case["multi"], case.get("repeat", 10)
    old = sys.getswitchinterval()
    sys.setswitchinterval(case.get("switch", 1e-5))
    bar = threading.Barrier(len(cases))
    outs = [dict() for _ in cases]
    errs = []
    end = time.monotonic() + case.get("seconds", 5)
    togg = case.get("toggle")
    done = []
    def go(i):
        try:
            vmem.LIB and vmem.install()
            bar.wait()
            if case.get("hot"):          # the blocks are made once, so that most of the time is spent inside the operations
                p = vexec.Prepared(cases[i], pn, None)
                first, mine = None, []
                for k in range(reps):
                    if k:
                        p.restore()
                    r = p.execute()
                    key = p.key(*r)
                    if first is None:
                        first = key
                        mine.append([key, p.outcome(*r), 1])
                    elif key == first:
                        mine[0][2] += 1
                    else:
                        for m in mine[1:]:
                            if m[0] == key:
                                m[2] += 1; break
                        else:
                            if len(mine) < 6:
                                mine.append([key, p.outcome(*r), 1])
                    del r
                    if time.monotonic() > end:
                        break
                for m in mine:
                    b = pickle.dumps(m[1], protocol=5)
                    outs[i][b] = outs[i].get(b, 0) + m[2]
                return
            for k in range(reps):
                o = vexec.run_plain(cases[i], pn)
                outs[i].setdefault(pickle.dumps(o, protocol=5), 0)
                outs[i][pickle.dumps(o, protocol=5)] += 1
                if time.monotonic() > end:
                    break
        except BaseException as e:      # noqa
            errs.append(repr(e))
        finally:
            done.append(i)
    ths = [threading.Thread(target=go, args=(i,)) for i in range(len(cases))]
    for t in ths:
        t.start()
    k = 0
    while togg and len(done) < len(cases):        # the main thread keeps changing the configuration
        vexec.CFG(pn, [togg[k % len(togg)]], reset=False); k += 1
        time.sleep(1e-4)
    for t in ths:
        t.join()
    sys.setswitchinterval(old)
    if errs:
        return {"errors": errs}
    return {"multi": [[(pickle.loads(b), n) for b, n in o.items()] for o in outs]}
