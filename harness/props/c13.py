"""C13: no setting of the engine changes any result."""
from hypothesis import strategies as st
from vrun import Part, Failure
import vunder, vufunc

RULE = "a case is a configuration history plus a generated case of one of C01-C12; non-trivial when that inner case is (at least 8 elements, ...)"
ASSUMPTIONS = ["results are judged as in the inner property (bit for bit, rounding for float sums, ulp bounds for transcendental functions)"]
FN = ["add", "subtract", "multiply", "true_divide", "minimum", "maximum", "equal", "less", "greater", "greater_equal", "not_equal", "less_equal", "abs", "absolute", "negative", "sqrt", "isnan",
      "floor", "ceil", "trunc", "rint", "sin", "cos", "exp", "log", "logical_and", "bitwise_and", "floor_divide", "square", "sign"]

def cfg_ops(draw, lo=1, hi=6):
    one = st.one_of(
        st.sampled_from([["atop_enable"], ["atop_disable"], ["thread_enable"], ["thread_disable"], ["thread_zigzag"], ["enable"], ["disable"], ["atop_disable"], ["thread_zigzag"],
                         ["recycler_enable"], ["recycler_disable"], ["initialize"], ["init"]]),
        st.integers(-1, 17).map(lambda n: ["thread_setworkers", n]),
        st.tuples(st.sampled_from(FN), st.sampled_from(["?", "i1", "i2", "i4", "i8", "u1", "u4", "u8", "f4", "f8", "q"]), st.sampled_from([0, 1, 2, 3, 4, 5, 7, 8, 11, 15, 16, 40, 63])).map(lambda t: ["setworkers_of"] + list(t)))
    return draw(st.lists(one, min_size=lo, max_size=hi))

class Config(vunder.Under):
    name = "config"
    bias = 4
    examples = {"quick": 18000, "thorough": 120000}
    shards = {"quick": 8, "thorough": 8}
    def config(self, draw, tier):
        return cfg_ops(draw)
    def edit(self, cfg):
        return lambda case: dict(case, pre=cfg)
PARTS = [Config()]
