"""C01: binary arithmetic, logical, bitwise, shift and min/max ufuncs equal plain numpy."""
import vgen, vufunc, vjudge
from vjudge import RULE  # noqa
from vrun import Part
ASSUMPTIONS = ["the oracle is the same numpy version without pnumpy, in another process", "which of 0.0 and -0.0 minimum/maximum return is unspecified"]

class Binary(Part):
    name = "arith"
    examples = {"quick": 36000, "thorough": 400000}
    shards = {"quick": 6, "thorough": 8}
    nontrivial = staticmethod(vjudge.nontrivial)
    def strategy(self, tier):
        return vufunc.ufunc_desc(vufunc.ARITH, 2, vgen.HOOKED, big=1 if tier == "quick" else 2)
    def execute(self, d, ctx):
        return vjudge.judge(d, ctx)
PARTS = [Binary()]
