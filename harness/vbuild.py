"""Build Quansight/pnumpy from /repo's current working tree, outside /repo.

The sources are copied to /verif/.build/<hash>/ and built there with the project's own setup.py
(so flags are the project's), compiling the translation units in parallel.  The build is keyed by
the content of everything that goes into it, so a changed tree is always rebuilt.
"""
import fcntl, hashlib, os, shutil, subprocess, sys, tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, ".build")
PY = "/opt/vp/venv/bin/python"
TOP = ["setup.py", "_add_newdocs.py", "README.md", "MANIFEST.in", "pyproject.toml", "setup.cfg", "LICENSE"]
SKIP_EXT = (".so", ".pyc", ".o")
GENERATED = {"src/pnumpy/PNUMPY.h", "src/pnumpy/_version.py"}

RUNNER = r'''
import sys, runpy
from concurrent.futures import ThreadPoolExecutor
try:
    import setuptools
except ImportError:
    pass
from distutils import ccompiler
def compile(self, sources, output_dir=None, macros=None, include_dirs=None, debug=0,
            extra_preargs=None, extra_postargs=None, depends=None):
    macros, objects, extra_postargs, pp_opts, build = self._setup_compile(
        output_dir, macros, include_dirs, sources, depends, extra_postargs)
    cc_args = self._get_cc_args(pp_opts, debug, extra_preargs)
    def one(obj):
        if obj in build:
            src, ext = build[obj]
            self._compile(obj, src, ext, cc_args, extra_postargs, pp_opts)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, objects))
    return objects
ccompiler.CCompiler.compile = compile
sys.argv = ["setup.py", "build_ext", "--inplace", "--force"]
runpy.run_path("setup.py", run_name="__main__")
'''

def _files():
    out = [f for f in TOP if os.path.isfile(os.path.join(REPO, f))]
    for root, dirs, files in os.walk(os.path.join(REPO, "src")):
        dirs[:] = sorted(d for d in dirs if d != "__pycache__")
        for f in sorted(files):
            rel = os.path.relpath(os.path.join(root, f), REPO)
            if f.endswith(SKIP_EXT) or rel in GENERATED:
                continue
            out.append(rel)
    return out

def tree_hash(extra=""):
    h = hashlib.sha256()
    for rel in _files():
        with open(os.path.join(REPO, rel), "rb") as f:
            d = f.read()
        h.update(rel.encode() + b"\0" + hashlib.sha256(d).digest())
    h.update(extra.encode())
    return h.hexdigest()[:20]

def _env(extra_flags=""):
    env = {k: v for k, v in os.environ.items()
           if k not in ("PYTHONHOME", "PYTEST_ADDOPTS", "CFLAGS", "CXXFLAGS", "LDFLAGS", "PYTHONPATH", "CC", "CXX",
                        "NPY_DISABLE_CPU_FEATURES", "LD_PRELOAD")}
    env["PATH"] = "/opt/vp/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["CC"], env["CXX"] = "gcc", "g++"
    env["CPPFLAGS"] = "-DPyUnicode_GET_SIZE=PyUnicode_GET_LENGTH " + extra_flags
    if extra_flags:
        env["LDFLAGS"] = extra_flags
    return env

class BuildError(Exception):
    pass

def build(flags="", tag=""):
    """Return the directory to put on PYTHONPATH."""
    os.makedirs(BUILD, exist_ok=True)
    key = tree_hash(flags) + tag
    dst = os.path.join(BUILD, key)
    ok = os.path.join(dst, ".ok")
    if os.path.exists(ok):
        return os.path.join(dst, "src")
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if os.path.exists(ok):
            return os.path.join(dst, "src")
        tmp = tempfile.mkdtemp(prefix="b_", dir=BUILD)
        try:
            for rel in _files():
                d = os.path.join(tmp, rel)
                os.makedirs(os.path.dirname(d), exist_ok=True)
                shutil.copy2(os.path.join(REPO, rel), d)
            with open(os.path.join(tmp, "prun.py"), "w") as f:
                f.write(RUNNER)
            r = subprocess.run([PY, "prun.py"], cwd=tmp, env=_env(flags), stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, timeout=600)
            so = [f for f in os.listdir(os.path.join(tmp, "src", "pnumpy")) if f.startswith("_pnumpy") and f.endswith(".so")]
            if r.returncode or not so:
                raise BuildError(r.stdout[-4000:])
            shutil.rmtree(os.path.join(tmp, "build"), ignore_errors=True)
            open(os.path.join(tmp, ".ok"), "w").close()
            if os.path.exists(dst):
                shutil.rmtree(dst)
            os.rename(tmp, dst)
            # keep the cache small: the 6 most recent builds
            old = sorted((os.path.join(BUILD, d) for d in os.listdir(BUILD)
                          if os.path.exists(os.path.join(BUILD, d, ".ok"))), key=os.path.getmtime)
            for d in old[:-6]:
                if d != dst:
                    shutil.rmtree(d, ignore_errors=True)
        finally:
            if os.path.exists(tmp):
                shutil.rmtree(tmp, ignore_errors=True)
        return os.path.join(dst, "src")
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()

def variant(name):
    """a build with extra flags: "sched" (random delays around every atomic operation), "asan" """
    h = os.path.join(VERIF, "harness", "native", "vsched.h")
    if name == "sched":
        with open(h, "rb") as f:
            key = hashlib.sha256(f.read()).hexdigest()[:8]
        try:
            return build("-include " + h, "sched" + key)
        except BuildError:
            return build()       # the header does not fit this tree: the plain build then
    if name == "asan":
        return build("-fsanitize=address -fno-omit-frame-pointer", "asan")
    return build()

def native(name):
    """compile harness/native/<name>.c into a shared library; -> its path"""
    src = os.path.join(VERIF, "harness", "native", name + ".c")
    with open(src, "rb") as f:
        key = hashlib.sha256(f.read()).hexdigest()[:16]
    os.makedirs(BUILD, exist_ok=True)
    dst = os.path.join(BUILD, "%s_%s.so" % (name, key))
    if not os.path.exists(dst):
        fd, tmp = tempfile.mkstemp(suffix=".so", dir=BUILD)
        os.close(fd)
        r = subprocess.run(["gcc", "-O2", "-g", "-shared", "-fPIC", "-o", tmp, src, "-lpthread", "-ldl"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            os.unlink(tmp)
            raise BuildError(r.stdout[-3000:])
        os.rename(tmp, dst)
    return dst

if __name__ == "__main__":
    print(build(" ".join(sys.argv[1:])))
