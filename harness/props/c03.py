"""C03: unary ufuncs equal plain numpy."""
import vgen, vufunc, vjudge
from vjudge import RULE  # noqa
from props.c01 import Binary
ASSUMPTIONS = ["the oracle is the same numpy version without pnumpy, in another process",
               "isnan, isinf, isfinite and signbit of numpy 1.26 are wrong for strided outputs; the oracle evaluates them on contiguous copies"]

class Unary(Binary):
    name = "unary"
    def strategy(self, tier):
        return vufunc.ufunc_desc(vufunc.UNARY, 1, vgen.HOOKED, big=1 if tier == "quick" else 2)
PARTS = [Unary()]
