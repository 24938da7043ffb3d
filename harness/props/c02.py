"""C02: comparison ufuncs equal plain numpy."""
import vgen, vufunc, vjudge
from vjudge import RULE  # noqa
from props.c01 import Binary
ASSUMPTIONS = ["the oracle is the same numpy version without pnumpy, in another process"]

class Compare(Binary):
    name = "compare"
    def strategy(self, tier):
        return vufunc.ufunc_desc(vufunc.COMPARE, 2, vgen.HOOKED, big=1 if tier == "quick" else 2)
PARTS = [Compare()]
