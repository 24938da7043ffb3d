"""Driver-side handle on a target process (numpy + pnumpy built from /repo)."""
import os, pickle, re, select, signal, struct, subprocess, sys, time
import vbuild
HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/vp/venv/bin/python"

class TargetDied(Exception):
    pass
class TargetPrinted(Exception):
    pass
class TargetHung(Exception):
    pass

class Target:
    def __init__(self, srcdir, mode="target", cpus=None, env=None, timeout=60, wrap=None):
        self.srcdir, self.mode, self.cpus, self.xenv, self.timeout, self.wrap = srcdir, mode, cpus, env or {}, timeout, wrap
        self.p = None
        self.restarts = 0
    def start(self):
        env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON") and k not in ("LD_PRELOAD", "NPY_DISABLE_CPU_FEATURES")}
        env.update(PYTHONPATH=self.srcdir + ":" + HERE if self.mode == "target" else HERE,
                   PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")
        if self.mode == "target":
            env["VMEM"] = vbuild.native("vmem")
        env.update(self.xenv)
        cpus = self.cpus
        def pre():
            if cpus is not None:
                os.sched_setaffinity(0, cpus)
            os.setsid()
        self.errf = open(os.path.join(os.environ.get("TMPDIR", "/tmp"), "vtarget.%d.err" % os.getpid()), "w+b")
        self.p = subprocess.Popen((self.wrap or []) + [PY, "-s", os.path.join(HERE, "vexec.py"), self.mode], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=self.errf, env=env, preexec_fn=pre, cwd=HERE)
        os.unlink(self.errf.name)
        self.buf = b""
    def stderr_tail(self, n=2000):
        try:
            self.errf.flush(); self.errf.seek(0, 2)
            sz = self.errf.tell(); self.errf.seek(max(0, sz - n))
            return self.errf.read().decode("utf8", "replace")
        except Exception:
            return ""
    def kill(self):
        if self.p:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except OSError:
                pass
            try:
                self.p.stdin.close()
            except Exception:
                pass
            try:
                self.p.stdout.close()
            except Exception:
                pass
            self.p.wait()
            self.errf.close()
            self.p = None
    def run(self, case, timeout=None):
        if self.p is None or self.p.poll() is not None:
            if self.p is not None:
                self.kill(); self.restarts += 1
            self.start()
        timeout = timeout or self.timeout
        try:
            pickle.dump(case, self.p.stdin, protocol=5)
            self.p.stdin.flush()
        except (BrokenPipeError, OSError):
            return self._dead()
        fd = self.p.stdout.fileno()
        end = time.monotonic() + timeout
        # wait for first byte with a timeout, then read the pickle
        r, _, _ = select.select([fd], [], [], timeout)
        if not r:
            self.kill(); self.restarts += 1
            raise TargetHung("no answer in %gs" % timeout)
        try:
            return pickle.load(self.p.stdout)
        except (EOFError, pickle.UnpicklingError):
            return self._dead()
    def _dead(self):
        rc = self.p.wait()
        tail = self.stderr_tail(40000)
        i = tail.rfind("ERROR: AddressSanitizer")
        if i >= 0:           # the first lines of the report
            tail = re.sub(r" \(BuildId: \w+\)|0x[0-9a-f]{8,} in ", "", tail[i:i + 2000])[:600]
        self.kill(); self.restarts += 1
        raise TargetDied("target process ended with status %s: %s" % (rc, tail[-600:]))
