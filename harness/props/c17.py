"""C17: operations touch only the memory they were given."""
import subprocess
from hypothesis import strategies as st
from vrun import Failure
import vbuild, vunder
from props.c13 import cfg_ops

RULE = "a case is a generated case of C01-C12 whose arrays and results end (or start) at an inaccessible page, or which runs in an AddressSanitizer build; non-trivial when the inner case is"
ASSUMPTIONS = ["results are judged as in the inner property", "numpy itself stays inside (the same cases ran against the repaired tree without an alarm)"]
_lib = []
def libasan():
    if not _lib:
        _lib.append(subprocess.check_output(["gcc", "-print-file-name=libasan.so"], text=True).strip())
    return _lib[0]

class Guard(vunder.Under):
    """every operand and every array numpy allocates lies against an inaccessible page"""
    name = "pages"
    bias = 2
    examples = {"quick": 16000, "thorough": 120000}
    shards = {"quick": 6, "thorough": 8}
    def config(self, draw, tier):
        return {"guard": draw(st.sampled_from(["end", "end", "start"])), "pre": cfg_ops(draw, 0, 2)}
    def edit(self, cfg):
        return lambda case: dict(case, guard=cfg["guard"], pre=cfg["pre"])

class Asan(vunder.Under):
    """the engine compiled with AddressSanitizer: its own work space, tables and stack as well"""
    name = "asan"
    bias = 4
    examples = {"quick": 5000, "thorough": 80000}
    shards = {"quick": 6, "thorough": 8}
    def config(self, draw, tier):
        return {"claim": draw(st.sampled_from([None, None, "0-63"])), "pre": cfg_ops(draw, 0, 3) + ([["thread_setworkers", draw(st.sampled_from([1, 3, 7, 14, 15, 16]))], ["burst", 1100]] if draw(st.integers(0, 60)) == 0 else [])}
    def kwargs(self, cfg, part):
        env = {"LD_PRELOAD": libasan(), "VMEM": "", "PYTHONMALLOC": "malloc",
               "ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1:detect_odr_violation=0:handle_segv=1:abort_on_error=0:exitcode=77:quarantine_size_mb=32"}
        if cfg["claim"]:
            env.update(LD_PRELOAD=libasan() + ":" + vbuild.native("vcpus"), VCPUS=cfg["claim"])
        return {"variant": "asan", "env": env, "timeout": 120}
    def edit(self, cfg):
        return lambda case: dict(case, guard="asan", pre=cfg["pre"])
PARTS = [Guard(), Asan()]
