#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing it)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, technique, note):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]), technique=technique, note=note))
DIFF = "The oracle is the same numpy 1.26 without pnumpy, run in another process on the same bytes; it trusts that numpy and that both run the same CPU features."

prop("C01", "Binary arithmetic on arrays gives numpy's results",
     "With pnumpy imported, every binary arithmetic, logical, bitwise, shift, power, minimum/maximum ufunc applied to arrays or scalars of any dtype, length, stride, alignment, byte order, broadcasting and with any out=, where=, dtype= argument returns what plain numpy returns: same dtype, shape, values bit for bit (which zero of minimum/maximum excepted) and same exceptions. "
     "Nothing outside the output is written and the inputs are not changed.",
     ["inputs"], "all operand dtypes, values (NaN, infinities, signed zeros, integer extremes included), lengths around every vector width and threading threshold, strides, alignments, broadcasts, out/where/dtype arguments",
     "The tests compare a few ufuncs on contiguous arange-like arrays of a handful of lengths; vector tails, strided and unaligned loops, scalar-first/second loops and the threaded split are reached only by particular shapes and values.",
     ["src/atop/ops_binary.cpp", "src/pnumpy/_pnumpy.cpp", "src/atop/threads.h"],
     [("vectorised binary kernels with scalar/strided fallbacks", "src/atop/ops_binary.cpp"), ("loop replacement and threading decision", "AtopBinaryMathFunction in src/pnumpy/_pnumpy.cpp")],
     "property-based differential testing against numpy (hypothesis)", DIFF)
prop("C02", "Comparisons of arrays give numpy's truth values",
     "With pnumpy imported, ==, !=, <, <=, >, >= (and their ufuncs) on arrays or scalars of any dtype pair, length, stride, alignment and broadcasting return exactly the booleans plain numpy returns, including NaN, signed zero, mixed signedness and integer extremes. "
     "Every output byte is 0 or 1 and nothing outside the output is written.",
     ["inputs"], "all dtypes pairs, values, lengths around vector widths and thread thresholds, strides, alignments, output layouts",
     "The tests compare aligned contiguous arrays of few lengths; packing of mask bits, unsigned comparison and the tails depend on length, dtype and value.",
     ["src/atop/ops_compare.cpp", "src/pnumpy/_pnumpy.cpp"],
     [("vectorised compare kernels that widen masks to bytes", "src/atop/ops_compare.cpp"), ("loop replacement", "AtopCompareMathFunction in src/pnumpy/_pnumpy.cpp")],
     "property-based differential testing against numpy (hypothesis)", DIFF)
prop("C03", "Element-wise unary operations give numpy's results",
     "With pnumpy imported, every unary ufunc that is exact (abs, negative, sign, floor, ceil, trunc, rint, sqrt, square, reciprocal, invert, logical_not, isnan, isinf, isfinite, signbit and the like) on any dtype, length, stride, alignment and out= returns what plain numpy returns, bit for bit, signed zeros and NaN included. "
     "Nothing outside the output is written and the input is not changed.",
     ["inputs"], "all dtypes, values, lengths, strides, alignments, output layouts",
     "The tests use small positive contiguous inputs; rounding ties, signed zeros, minimum integers, strided tails and threaded blocks need particular values and shapes.",
     ["src/atop/ops_unary.cpp", "src/pnumpy/_pnumpy.cpp"],
     [("vectorised unary kernels with strided fallbacks", "src/atop/ops_unary.cpp"), ("loop replacement", "AtopUnaryMathFunction in src/pnumpy/_pnumpy.cpp")],
     "property-based differential testing against numpy (hypothesis)", DIFF)
prop("C04", "Transcendental functions are accurate everywhere",
     "With pnumpy imported, exp, exp2, expm1, log, log2, log10, log1p, the trigonometric and hyperbolic functions, cbrt and power of any real dtype and array layout agree with plain numpy to a few units in the last place for every finite argument, subnormals, huge arguments and the overflow and underflow borders included. "
     "NaN, infinities, exact special values, result dtypes and exceptions are exactly numpy's, and each element's result depends on that element only.",
     ["inputs"], "all float and integer arguments, drawn over the whole exponent range and near every branch of the approximations, in every layout",
     "The tests check allclose on a few thousand ordinary values; a wrong polynomial branch, range reduction or special case shows on a sliver of the 2^32 or 2^64 arguments.",
     ["src/atop/ops_log.cpp", "src/atop/ops_trig.cpp", "src/pnumpy/_pnumpy.cpp"],
     [("polynomial kernels with range reduction and special cases", "src/atop/ops_log.cpp, src/atop/ops_trig.cpp"), ("loop replacement", "AtopTrigMathFunction in src/pnumpy/_pnumpy.cpp")],
     "property-based differential testing against numpy with ulp bounds (hypothesis)", DIFF + " Bounds: 8 ulp (sin/cos 16 ulp of max(|result|, ulp(1)*|argument|)).")
prop("C05", "Reductions give numpy's results over any axis and layout",
     "With pnumpy imported, sum, prod, min, max, any, all and the reduce method of every ufunc, over any axis or axes, with initial, where, keepdims, dtype and out arguments and any dtype, length, stride and alignment, return what plain numpy returns: exactly for integers, booleans, minimum/maximum, non-associative operations and exactly representable float data, and to rounding for float sums and products. "
     "A NaN anywhere, one single different element anywhere and empty input are treated as numpy treats them.",
     ["inputs"], "all dtypes, shapes, axes, layouts, initial/where/out arguments, values",
     "The tests reduce a few contiguous ranges; block boundaries, start values, strided and unaligned inner loops and non-associative operations are not sampled.",
     ["src/atop/ops_binary.cpp", "src/pnumpy/_pnumpy.cpp"],
     [("vectorised reduce kernels", "src/atop/ops_binary.cpp"), ("reduce of per-block results, start values, which reduces may be divided", "AtopBinaryMathFunction in src/pnumpy/_pnumpy.cpp")],
     "property-based differential testing against numpy (hypothesis)", DIFF + " Float sums: within eps*(2*sqrt(n)+8)*sum|x|.")
prop("C06", "Scans and overlapping in-place operations behave as in numpy",
     "With pnumpy imported, accumulate, reduceat, at and outer of every hooked ufunc, and any ufunc call whose output shares memory with its inputs (in place, shifted, reversed, strided or partially overlapping views), leave exactly the memory contents plain numpy leaves. "
     "This holds for every length, whether or not the work is divided among threads.",
     ["inputs"], "all ufuncs, dtypes, overlap distances and strides, reduceat indices, repeated indices for at",
     "No test passes overlapping views or accumulates arrays beyond the threading threshold; the result depends on the order in which elements are read and written.",
     ["src/pnumpy/_pnumpy.cpp", "src/atop/ops_binary.cpp"],
     [("loops that must run in order are handed to numpy", "LoopMustRunInOrder in src/pnumpy/_pnumpy.cpp"), ("reduce versus accumulate detection", "AtopBinaryMathFunction in src/pnumpy/_pnumpy.cpp")],
     "property-based differential testing against numpy on shared buffers (hypothesis)", DIFF)
prop("C07", "Sorting leaves exactly the sorted elements",
     "With pnumpy imported, np.sort, ndarray.sort and pn.sort with any kind, axis, order, dtype, length, layout and data pattern leave exactly the elements plain numpy leaves, in the same order (indistinguishable elements aside), NaN and NaT last. "
     "No element is lost, duplicated or altered and nothing outside the array is written.",
     ["inputs"], "all sortable dtypes (strings and byte-swapped included), lengths across insertion/merge/parallel thresholds, patterns (sorted, reversed, sawtooth, few values, NaN at block borders), axes and strides",
     "The tests sort random or ordered arrays of few lengths; partition bounds, merge fall-backs and NaN handling at parallel block borders need particular data.",
     ["src/atop/sort.cpp", "src/pnumpy/sorting.cpp", "src/pnumpy/_pnumpy.cpp"],
     [("quick/merge/heap sorts and parallel in-place merge", "src/atop/sort.cpp"), ("replacement of numpy's per-dtype sort functions", "AtopSortMathFunction in src/pnumpy/_pnumpy.cpp")],
     "property-based differential testing against numpy (hypothesis)", DIFF)
prop("C08", "argsort and lexsort return a correct, stable permutation",
     "With pnumpy imported, np.argsort, np.lexsort and pn.lexsort (with index, cutoffs, ascending and several keys of any dtype and layout) return a permutation that sorts the data, ties in original order wherever the sort is stable, NaN last. "
     "The keys are not changed, the index dtype is that of plain numpy or the documented one, and bad arguments raise instead of corrupting memory.",
     ["inputs"], "all dtypes, lengths, number of keys, patterns of ties and NaN, strides, cutoffs, index dtypes",
     "The tests compare argsort of few random arrays; stability and ties across merge and thread borders are sampled at a handful of sizes.",
     ["src/atop/sort.cpp", "src/pnumpy/sorting.cpp", "src/pnumpy/_pnumpy.cpp"],
     [("indirect merge sorts, parallel merge of 8 blocks", "src/atop/sort.cpp"), ("lexsort over several keys", "src/pnumpy/sorting.cpp")],
     "property-based differential testing against numpy (hypothesis)", DIFF)
prop("C09", "Searching functions and pnumpy's wrappers agree with numpy",
     "With pnumpy imported, argmin, argmax, searchsorted, unique, set operations, median, percentile, partition and other numpy functions that rest on replaced loops return what plain numpy returns for any dtype, axis, layout and data. "
     "Every function of the pnumpy namespace that mirrors a numpy function accepts the same arguments and returns the same value, dtype and exceptions.",
     ["inputs"], "functions, dtypes, shapes, axes, NaN and tie patterns, keyword arguments",
     "The tests call each wrapper once or twice with ordinary arguments.",
     ["src/pnumpy/sort.py", "src/pnumpy/_pnumpy.cpp", "src/pnumpy/sorting.cpp"],
     [("python wrappers", "src/pnumpy/*.py"), ("replaced loops and array functions", "src/pnumpy/_pnumpy.cpp")],
     "property-based differential testing against numpy (hypothesis)", DIFF)
prop("C10", "Mask and fancy indexing select exactly the right items",
     "a[mask], a[index], take, compress, putmask and assignment through them give plain numpy's result with pnumpy imported, and pn.getitem of a mask or an index array returns, for every item type, index type, stride and length, exactly the selected items in order, the default value where an index is out of range, and numpy's wrap-around for negative indexes. "
     "The dtype of the values is kept, object references are counted, the arguments are not changed and unsupported arguments raise.",
     ["inputs"], "item sizes 1..1000+ and dtypes, index dtypes and values (out of range, extremes of the type), mask densities, strides, lengths around 8 and the thread thresholds, defaults",
     "The tests index a few numeric arrays; each item size has its own copy loop, strided and threaded variants need particular layouts.",
     ["src/pnumpy/getitem.cpp"],
     [("boolean count and copy in two passes over chunks", "src/pnumpy/getitem.cpp"), ("typed gather loops with default values", "src/pnumpy/getitem.cpp")],
     "property-based testing against a numpy reference model (hypothesis)", "The model of pn.getitem is a[mask] / np.where over range-checked indexes in plain numpy.")
prop("C11", "arange and generated sequences equal numpy's, element for element",
     "With pnumpy imported, arange with any start, stop, step and dtype, and what numpy builds on it, returns the same length, dtype and elements as plain numpy, bit for bit, for every length below or above the threading thresholds. "
     "Nothing outside the result is written.",
     ["inputs"], "start, stop and step of any magnitude and sign, dtypes, lengths",
     "The tests compare arange of integers of a few lengths; wrap-around, float rounding and block starts need particular values.",
     ["src/atop/fill.cpp", "src/pnumpy/_pnumpy.cpp"],
     [("threaded fill from the first two elements", "src/atop/fill.cpp"), ("replacement of numpy's fill functions", "src/pnumpy/_pnumpy.cpp")],
     "property-based differential testing against numpy (hypothesis)", DIFF)
prop("C12", "Converting a record array to columns preserves every field",
     "recarray_to_colmajor returns, for every record layout (field types, offsets, padding, nesting, subarrays, strings, strides and number of records), a column for each field with exactly that field's values and dtype, contiguous and independent of the input. "
     "The record array is not changed and layouts it cannot convert raise or fall back to a correct copy.",
     ["inputs"], "record dtypes, offsets, record counts across the thread threshold, strides",
     "The tests convert a few layouts of simple numeric fields.",
     ["src/atop/recarray.cpp", "src/pnumpy/conversions.cpp", "src/pnumpy/recarray.py"],
     [("per-field strided copy split over threads", "src/atop/recarray.cpp"), ("field enumeration", "src/pnumpy/recarray.py")],
     "property-based testing against a numpy reference model (hypothesis)", "Reference: a[name].copy() of plain numpy.")

exec(open(os.path.join(V, "tools", "meta2.py")).read()) if os.path.exists(os.path.join(V, "tools", "meta2.py")) else None

def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
    checks = []
    for p in P:
        checks.append(dict(property=p["id"], quick_cmd="sh ./check.sh %s quick" % p["id"], thorough_cmd="sh ./check.sh %s thorough" % p["id"],
                           evidence_file="evidence/%s.json" % p["id"], technique=p["technique"], level="exploration",
                           level_note="Generated-input search, no proof: a violation outside the generated cases is missed. " + p["note"]))
    m = dict(version=1, setup_cmd="sh ./setup.sh", hooks=dict(guard="none", enable="no hooks: the checks build /repo's tree as it is (one variant force-includes a header of /verif)", source_commits=[]),
             checks=checks, not_applicable=[], notes="See DESIGN.md. known_findings.json lists known findings and the fix commits.")
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
main()
