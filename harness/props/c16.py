"""C16: operations finish wherever they are called: on any set of CPUs, after fork, in any thread, under signals; the process exits."""
import json, os, re, signal, subprocess, sys, time
from hypothesis import strategies as st
from vrun import Part, Failure
import vbuild, vclient, vunder
from props.c13 import cfg_ops

RULE = "a case is a process context (CPU set, number of CPUs claimed, forked child, fresh thread, timer signals, way of exiting) plus a generated case of C01-C12 or a small program; non-trivial when the inner case is, and for programs always"
ASSUMPTIONS = ["results are judged as in the inner property", "a case that gives no answer for 60 s is a hang (they take milliseconds)", "CPU numbers that do not exist here are simulated by an LD_PRELOAD stand-in of sched_getaffinity"]

class Cpus(vunder.Under):
    """few CPUs: less workers than blocks, workers never running together with the caller"""
    name = "cpus"
    bias = 12
    examples = {"quick": 5000, "thorough": 60000}
    shards = {"quick": 3, "thorough": 8}
    SETS = [[0], [1], [0, 1], [0, 1, 2], [2, 5], [0, 1, 2, 3, 4]]
    def config(self, draw, tier):
        return {"cpus": draw(st.sampled_from(self.SETS)), "pre": cfg_ops(draw, 0, 3)}
    def kwargs(self, cfg, part):
        n = os.cpu_count() or 1
        return {"cpus": sorted({c % n for c in cfg["cpus"]})}
    def edit(self, cfg):
        return lambda case: dict(case, pre=cfg["pre"])

class Claimed(vunder.Under):
    """the number of CPUs claimed by the system: 1..64, beyond the 63 bits of the mask"""
    name = "claimed"
    bias = 12
    examples = {"quick": 4000, "thorough": 60000}
    shards = {"quick": 2, "thorough": 8}
    SETS = ["0", "0-1", "0-3", "1,3,5,7,9,11,13", "0-14", "0-15", "0-16", "0-63", "60-70", "64-70", "3,62,63", "0-127"]
    def config(self, draw, tier):
        return {"claim": draw(st.sampled_from(self.SETS)), "pre": [["thread_setworkers", draw(st.sampled_from([0, 1, 2, 3, 7, 8, 12, 14, 15, 16, 40]))]] + cfg_ops(draw, 0, 3)}
    def kwargs(self, cfg, part):
        return {"env": {"LD_PRELOAD": vbuild.native("vcpus"), "VCPUS": cfg["claim"]}}
    def edit(self, cfg):
        return lambda case: dict(case, pre=cfg["pre"])

class Fork(vunder.Under):
    """in a forked child (which has no workers), also when other threads were computing while it was forked"""
    name = "fork"
    bias = 12
    examples = {"quick": 1500, "thorough": 30000}
    shards = {"quick": 3, "thorough": 8}
    def config(self, draw, tier):
        return {"busy": draw(st.sampled_from([0, 0, 1, 2, 3])), "pre": cfg_ops(draw, 0, 3)}
    def edit(self, cfg):
        return lambda case: dict(case, fork=1, busy=cfg["busy"], pre=cfg["pre"])

class Thread(vunder.Under):
    """in a Python thread made for the case"""
    name = "thread"
    bias = 12
    examples = {"quick": 3000, "thorough": 40000}
    shards = {"quick": 2, "thorough": 8}
    def config(self, draw, tier):
        return cfg_ops(draw, 0, 3)
    def edit(self, cfg):
        return lambda case: dict(case, thread=1, pre=cfg)

class Signals(vunder.Under):
    """while a timer signal arrives every fraction of a millisecond, whose Python handler computes as well"""
    name = "signals"
    bias = 12
    examples = {"quick": 2500, "thorough": 40000}
    shards = {"quick": 2, "thorough": 8}
    def config(self, draw, tier):
        return {"every": draw(st.sampled_from([50, 150, 400, 2000])), "work": draw(st.sampled_from([0, 1, 2])), "pre": cfg_ops(draw, 0, 3)}
    def edit(self, cfg):
        return lambda case: dict(case, sig=cfg["every"], sigwork=cfg["work"], pre=cfg["pre"])

# ---------------------------------------------------------------- small programs
OPS = {"add": "np.add(a, b)", "sum": "k.sum()", "sort": "np.sort(a)", "argsort": "np.argsort(k, kind='stable')", "arange": "np.arange(200000)", "mask": "pn.getitem(a, a > 0)", "take": "pn.getitem(a, i)",
       "lexsort": "pn.lexsort([k, a])", "exp": "np.exp(b)", "rec": "pn.recarray_to_colmajor(rec)", "where": "np.where(a > b, a, b)", "cumsum": "k.cumsum()", "max": "a.max()"}
CFGS = ["pn.init()", "pn.initialize()", "pn.enable()", "pn.disable()", "pn.thread_disable()", "pn.thread_enable()", "pn.thread_setworkers(2)", "pn.thread_setworkers(7)", "pn.atop_enable()", "pn.atop_disable()", "pn.thread_zigzag()",
        "pn.recycler_enable()", "pn.recycler_disable()"]
IMPORTS = ["import numpy as np; import pnumpy as pn", "import pnumpy as pn; import numpy as np", "from pnumpy import *; import pnumpy as pn; import numpy as np", "import numpy as np, importlib; import pnumpy as pn; importlib.reload(pn)",
           "import threading; t = threading.Thread(target=lambda: __import__('pnumpy')); t.start(); t.join(); import numpy as np; import pnumpy as pn",
           "import numpy as np; import pnumpy as pn; import sys; sys.modules.pop('pnumpy'); import pnumpy as pn", "import numpy as np, os; os.environ['X'] = '1'; import pnumpy as pn; pn.disable(); pn.init()"]
EXITS = {"end": ("", 0), "sysexit": ("import sys; sys.exit(7)", 7), "raise": ("raise SystemExit(9)", 9), "error": ("1/0", 1), "os_exit": ("os._exit(5)", 5), "thread_exit": ("threading.Thread(target=work).start()", 0),
         "daemon": ("threading.Thread(target=forever, daemon=True).start(); time.sleep(0.01)", 0), "atexit": ("atexit.register(work)", 0), "fork_exit": ("p = os.fork()\nif p == 0:\n    work(); sys.exit(3)\nelse:\n    assert os.waitpid(p, 0)[1] == 3 << 8", 0),
         "forkdaemon": ("threading.Thread(target=forever, daemon=True).start(); time.sleep(0.005)\np = os.fork()\nif p == 0:\n    work(); os._exit(4)\nassert os.waitpid(p, 0)[1] == 4 << 8", 0),
         "kill": ("os.kill(os.getpid(), 15)", -15), "pool": ("import multiprocessing as mp\nwith mp.get_context('fork').Pool(2) as p:\n    assert p.map(job, range(6)) == [job(k) for k in range(6)]", 0),
         "threads": ("ts = [threading.Thread(target=work) for _ in range(4)]\nfor t in ts: t.start()\nfor t in ts: t.join()", 0), "delmod": ("del pn, np; import sys, gc; [sys.modules.pop(m) for m in list(sys.modules) if m.startswith('pnumpy')]; gc.collect()", 0),
         "refork": ("for _ in range(3):\n    p = os.fork()\n    if p:\n        assert os.waitpid(p, 0)[1] == 0\n        break\n    work()\nelse:\n    pass", 0)}
HEAD = """
import os, sys, threading, time, atexit
n = %d
a = np.linspace(-5, 5, n); b = a[::-1].copy(); k = (np.arange(n) * 7919 %% 1000).astype('i8'); i = k %% n
rec = np.zeros(n, [('x', 'f8'), ('y', 'i4')]); rec['x'] = a
def ops():
    return [%s]
def same(x, y):
    if isinstance(x, dict):
        return list(x) == list(y) and all(same(x[q], y[q]) for q in x)
    return np.array_equal(x, y)
pn.disable(); want = ops(); pn.enable()
def work():
    for _ in range(3):
        for x, y in zip(ops(), want):
            if not same(x, y):
                sys.stderr.write('WRONG RESULT'); os._exit(99)
def forever():
    try:
        while True:
            work()
    except NameError:       # "delmod" took np away; a daemon thread that prints a traceback while Python exits is an abort of Python's own
        pass
def job(q):
    work(); return int((k + q).sum())
"""

class Programs(Part):
    """whole processes: ways of importing, configuring, computing, forking and exiting"""
    name = "programs"
    examples = {"quick": 160, "thorough": 3000}
    shards = {"quick": 3, "thorough": 8}
    def strategy(self, tier):
        ops = [o for o in OPS if o != "exp"]      # exp is not bit-exact
        return st.fixed_dictionaries({"import": st.sampled_from(IMPORTS), "n": st.sampled_from([1, 1000, 65535, 65536, 100000, 300001]), "ops": st.lists(st.sampled_from(ops), min_size=1, max_size=4),
                                      "cfg": st.lists(st.sampled_from(CFGS), max_size=4), "exit": st.lists(st.sampled_from(sorted(EXITS)), min_size=1, max_size=3),
                                      "cpus": st.sampled_from([None, None, [0], [0, 1], [0, 1, 2]]), "claim": st.sampled_from([None, None, None, "0-15", "0-63", "64-70"])})
    def nontrivial(self, d):
        return True
    def program(self, d):
        last = d["exit"][-1]
        pre = [x for x in d["exit"][:-1] if EXITS[x][1] == 0 and x not in ("refork", "delmod")]
        text = d["import"] + HEAD % (d["n"], ", ".join(OPS[o] for o in d["ops"])) + "\n".join(d["cfg"]) + "\nwork()\n" + "\n".join(EXITS[x][0] for x in pre) + "\nwork()\n" + EXITS[last][0] + "\n"
        return text, EXITS[last][1]
    def execute(self, d, ctx):
        text, code = self.program(d)
        env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
        env.update(PYTHONPATH=ctx.src, PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1")
        if d["claim"]:
            env.update(LD_PRELOAD=vbuild.native("vcpus"), VCPUS=d["claim"])
        def pre():
            os.setsid()
            if d["cpus"] and not d["claim"]:
                os.sched_setaffinity(0, [c for c in d["cpus"] if c < (os.cpu_count() or 1)])
        ctx.evals += 1
        p = subprocess.Popen([vclient.PY, "-W", "ignore", "-c", text], env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=pre, cwd="/")
        try:
            out, err = p.communicate(timeout=90)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            out, err = p.communicate()
            return [Failure("program hangs", "no end after 90 s: %s" % json.dumps(d))]
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        if p.returncode != code:
            return [Failure("exit status", "exit status %s instead of %s: %s ... %s" % (p.returncode, code, json.dumps(d), err.decode("utf8", "replace")[-300:]))]
        if out:
            return [Failure("prints", "printed %r: %s" % (out[:200], json.dumps(d)))]
        return []

# ---------------------------------------------------------------- where the work is done
class Workers(Part):
    """CPU time of the worker threads: used for long operations, only as many as allowed, none when threading is off or nothing runs"""
    name = "workers"
    examples = {"quick": 36, "thorough": 800}
    shards = {"quick": 2, "thorough": 2}
    def strategy(self, tier):
        return st.fixed_dictionaries({"steps": st.lists(st.tuples(st.sampled_from(["on", "on", "off", "small"]), st.integers(1, 7), st.sampled_from(["add", "less", "sum", "sqrt", "add", "sort", "lexsort", "mask", "cast"])).map(list), min_size=1, max_size=4)})
    def nontrivial(self, d):
        return True
    def execute(self, d, ctx):
        r = ctx.run({"bufs": [], "arrs": [], "steps": [["workers", [d["steps"]], {}]], "pre": [], "post": []})["steps"][0]
        if r[0] != "ok":
            return [Failure("workers", str(r))]
        rep = json.loads(r[1][1])
        out = []
        for (mode, k, op), x in zip(d["steps"], rep):
            if x["idle"] > 0.15:
                out.append(Failure("busy when idle", "after %s with %d workers the process used %.2f s of CPU time in %.2f s of sleep" % (op, k, x["idle"], x["slept"])))
            if mode in ("off", "small") and x["used"] > 2:
                out.append(Failure("threads not asked for", "%s (%s): %d worker threads used CPU time: %s" % (op, mode, x["used"], x["times"])))
            if mode == "on" and x["cpus"] > 1 and x["used"] < 1:
                out.append(Failure("no worker works", "%s on 2 million elements with %d workers: no worker thread used CPU time in %d calls, %.1f s" % (op, k, x["calls"], x["secs"])))
        return out[:1]

PARTS = [Cpus(), Claimed(), Fork(), Thread(), Signals(), Programs(), Workers()]
