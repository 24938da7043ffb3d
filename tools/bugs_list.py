bug("b01","C01",[(OB,"    return _mm256_add_epi64(add1, _mm256_add_epi64(add2, add3));","    return _mm256_add_epi64(add1, add2);")],
 "uint64 multiplication of arrays of at least 4 elements whose first operand exceeds 32 bits",
 "the high part of the first factor is dropped from 64-bit products",
 '''
import numpy as np, pnumpy, sys
a = np.array([2**40 + 3, 5, 2**63 + 1, 7] * 5, "u8"); b = np.array([3, 2**35, 9, 11] * 5, "u8")
got = a * b
want = np.array([(int(x) * int(y)) % 2**64 for x, y in zip(a, b)], "u8")
sys.exit(0 if (got == want).all() else 1)
''')
bug("b02","C02",[(OC,"""                        *pDataOutX++ = COMPARE(*pDataInX, *pDataInX);
                        pDataInX++;
                    }

                    return;

                }
            }
        }
    }
    // generic rare case
    float* pDataInX = (float*)pDataIn;""","""                        // an array compared with itself
                        *pDataOutX++ = COMPARE(0.0f, 0.0f);
                        pDataInX++;
                    }

                    return;

                }
            }
        }
    }
    // generic rare case
    float* pDataInX = (float*)pDataIn;""")],
 "a float32 array compared with itself with a NaN in the last len % 32 elements",
 "NaN == NaN becomes true in the scalar tail",
 '''
import numpy as np, pnumpy, sys
a = np.ones(37, "f4"); a[35] = np.nan
sys.exit(0 if not (a == a)[35] and (a != a)[35] and (a == a).sum() == 36 else 1)
''')
bug("b05","C05",[(PN,"        if (atype < ATOP_TYPES::ATOP_INT128) {\n            return g_startval_one;","        if (atype < ATOP_TYPES::ATOP_UINT64) {\n            return g_startval_one;")],
 "multiply.reduce (prod) of at least 65536 uint64 elements whose first element is not 1 (and whose product is not 0)",
 "every chunk of an unsigned 64-bit product starts from the first element instead of 1",
 '''
import numpy as np, pnumpy, sys
a = np.ones(70000, "u8"); a[0] = 3
sys.exit(0 if int(np.prod(a)) == 3 else 1)
''')
bug("b07","C07",[(SO,"            // for floats, this picks up any nans on the far right\n            while (pm < origpr) {","            // for floats, this picks up any nans on the far right\n            while (pm < pr) {")],
 "stable sort (merge sort) of float data with NaN",
 "NaN found on the far right of a merge are not copied to the workspace",
 '''
import numpy as np, pnumpy, sys
rng = np.random.default_rng(3)
for n in (50, 200, 1000):
    a = rng.standard_normal(n); a[rng.integers(0, n, 9)] = np.nan
    b = np.sort(a, kind="stable")
    k = int(np.isnan(a).sum())
    if not np.isnan(b[n - k:]).all() or sorted(a[a == a].tolist()) != b[:n - k].tolist(): sys.exit(1)
''')
bug("b08","C08",[(SO,"""    if (COMPARE_LT(pValue[*pm], pValue[*(pm - 1)])) {

        MEMCPYR(pWorkSpace, pl, (pm - pl) * sizeof(UINDEX));

        // pi is end of workspace
        pi = pWorkSpace + (pm - pl);
        pj = pWorkSpace;
        pk = pl;

        while (pj < pi && pm < pr) {
            if (COMPARE_LT(pValue[*pm], pValue[*pj])) {
                *pk++ = *pm++;
            }
            else {
                *pk++ = *pj++;
            }
        }""","""    if (COMPARE_LT(pValue[*pm], pValue[*(pm - 1)])) {

        MEMCPYR(pWorkSpace, pl, (pm - pl) * sizeof(UINDEX));

        // pi is end of workspace
        pi = pWorkSpace + (pm - pl);
        pj = pWorkSpace;
        pk = pl;

        while (pj < pi && pm < pr) {
            if (COMPARE_LT(pValue[*pj], pValue[*pm])) {
                *pk++ = *pj++;
            }
            else {
                *pk++ = *pm++;
            }
        }""")],
 "a threaded stable argsort or lexsort (at least 65536 elements) with equal keys on both sides of a merge border",
 "equal elements of the right part come before those of the left part: not stable",
 '''
import numpy as np, pnumpy, sys
a = (np.arange(100000) * 7919 % 5).astype("i8")
i = np.argsort(a, kind="stable")
ok = (np.diff(a[i]) >= 0).all() and all((np.diff(i[a[i] == v]) > 0).all() for v in range(5))
sys.exit(0 if ok else 1)
''')
bug("b10","C10",[(GI,"if (inner_loop_iters > 255) inner_loop_iters = 255;","if (inner_loop_iters > 256) inner_loop_iters = 256;")],
 "pn.getitem with a contiguous mask that is True at one position modulo 32 for 256 consecutive vectors (8192 elements)",
 "the byte-sized counters wrap to 0, so the number of selected items is too small",
 '''
import numpy as np, pnumpy as pn, sys
n = 8192 + 40
a = np.arange(n); m = np.zeros(n, bool); m[3:8192:32] = True
r = pn.getitem(a, m)
sys.exit(0 if r.size == 256 and (r == np.arange(3, 8192, 32)).all() else 1)
''')
bug("b11","C11",[(FI,"        pBuffer[i] = (TYPE)(first + i * delta);\n    }\n    // Path below","        pBuffer[i] = (TYPE)(pBuffer[i - 1] + delta);\n    }\n    // Path below")],
 "arange of floats whose step is not exactly representable",
 "the values are accumulated instead of computed from the index (and a later chunk starts from a value not yet written)",
 '''
import numpy as np, pnumpy, sys
a = np.arange(0.0, 100.0, 0.1)
first, delta = 0.0, 0.1
sys.exit(0 if all(a[i] == first + i * delta for i in range(2, a.size)) else 1)
''')
bug("b12","C12",[(RE,"                    while ((pSrc + 8) < pEnd) {","                    while ((pSrc + 6) < pEnd) {")],
 "a field of 7, 15, 23... bytes in a record array of more than 16384 rows, converted by several threads",
 "the last 7 bytes of a row are copied as 8; the extra byte lands in the first row of the next block, which another thread has already written",
 '''
import numpy as np, pnumpy as pn, sys
n = 200000
r = np.zeros(n, [("s", "S7"), ("t", "S1")]); r["s"] = b"abcdefg"; r["t"] = b"#"
for _ in range(60):
    if not (pn.recarray_to_colmajor(r)["s"] == b"abcdefg").all(): sys.exit(1)
''')
bug("b03","C03",[(OU,"template<typename T> static const inline bool SIGNBIT_OP(float x) { return std::signbit(x); }","template<typename T> static const inline bool SIGNBIT_OP(float x) { return x < 0; }")],
 "signbit of float32 -0.0 or of a nan with the sign bit set", "signbit looks at the value instead of the sign bit",
 '''
import numpy as np, pnumpy, sys
a = np.array([1, -1, 0.0, -0.0, -np.inf, np.copysign(np.nan, -1), 5, -0.0, 3], "f4")
sys.exit(0 if np.signbit(a).tolist() == [False, True, False, True, True, True, False, True, False] else 1)
''')
bug("b04","C04",[("src/atop/avx_mathfun.h","    fx = _mm256_sub_ps(tmp, mask);\n\n    tmp = _mm256_mul_ps(fx, _ps256_cephes_exp_C1);\n    v8sf z = _mm256_mul_ps(fx, _ps256_cephes_exp_C2);\n    x = _mm256_sub_ps(x, tmp);\n    x = _mm256_sub_ps(x, z);","    fx = _mm256_sub_ps(tmp, mask);\n\n    // one multiplication is enough to subtract n*log(2)\n    tmp = _mm256_mul_ps(fx, _mm256_set1_ps(0.693147180559945f));\n    x = _mm256_sub_ps(x, tmp);\n    v8sf z;")],
 "exp of float32 values far from zero, 8 or more in a row", "n*log(2) is subtracted in one step, which costs several digits for large arguments",
 '''
import numpy as np, pnumpy, sys
x = np.linspace(-80, 80, 4001).astype("f4")
r, w = np.exp(x).astype("f8"), np.exp(x.astype("f8"))
sys.exit(0 if (abs(r - w) / w).max() < 1e-6 else 1)
''')
bug("b05","C05",[(PN,"                int64_t chunks = 1 + ((n - 1) / THREADER->WORK_ITEM_CHUNK);\n                int64_t allocsize","                int64_t chunks = 1 + (n / THREADER->WORK_ITEM_CHUNK);\n                int64_t allocsize")],
 "a threaded reduction of exactly a multiple of 16384 elements", "one block too many is combined, whose result nobody wrote",
 '''
import numpy as np, pnumpy, sys
bad = 0
for n in (65536, 81920, 131072):
    for dt in ("i4", "i8", "f8", "i2"):
        a = np.ones(n, dt)
        for _ in range(20):
            junk = [np.full(k, 77, dt) for k in (2, 4, 8, 16)]; del junk
            np.sort(np.arange(3000)[::-1])
            bad += np.add.reduce(a, dtype=dt) != np.array(n).astype(dt) or np.maximum.reduce(a) != 1 or np.minimum.reduce(a) != 1
sys.exit(1 if bad else 0)
''')
bug("b06","C06",[(PN,"                stCallback.pStartVal = pstartval == NULL ? op1 : pstartval;","                stCallback.pStartVal = op1;")],
 "reduceat with a segment of 65536 elements or more (or a reduction with initial=)", "the first element of the segment is added once per block of 16384",
 '''
import numpy as np, pnumpy, sys
a = np.arange(1, 300001, dtype="i8")
i = np.array([0, 5, 100000, 299990])
r = np.add.reduceat(a, i)
w = [int(a[p:q].astype(object).sum()) for p, q in zip(i, list(i[1:]) + [a.size])]
sys.exit(0 if r.tolist() == w else 1)
''')
bug("b09","C09",[(SPY,"        a = asanyarray(a).flatten()","        a = asanyarray(a).reshape(-1)")],
 "pn.sort(a, axis=None) of a contiguous array", "the flattened array is a view, so the argument itself is sorted",
 '''
import numpy as np, pnumpy as pn, sys
a = np.array([[3, 1], [2, 0]]); b = a.copy()
r = pn.sort(a, axis=None)
sys.exit(0 if r.tolist() == [0, 1, 2, 3] and (a == b).all() else 1)
''')
bug("b13","C13",[(TH,"            if (ZigZag & 1) {","            const int64_t given = block;\n            if (ZigZag & 1) {"),(TH,"            if ((logicalblock + 1) == BlockLast) {","            if ((given * threads + core + 1) == BlockLast) {")],
 "zig-zag order switched on, and a length of at least 65536 that is no multiple of 16384", "the short block is the last one given out instead of the last one of the array",
 '''
import subprocess, sys
code = """
import numpy as np, pnumpy as pn, sys
n = 16384 * 9 + 5
a = np.arange(n + 32768, dtype='i4')
pn.thread_zigzag()
for _ in range(40):
    o = np.zeros(n + 32768, 'i4')
    np.add(a[:n], 1, out=o[:n])
    if (o[:n] != a[:n] + np.int32(0) + 1).any() or o[n:].any(): sys.exit(1)
    if o[:n].tolist() != list(range(1, n + 1)): sys.exit(1)
"""
sys.exit(1 if subprocess.call([sys.executable, "-s", "-c", code]) else 0)
''')
bug("b14","C14",[(TH,"        int previousVal = GlobalWorkerParams.FutexWakeCount;\n","        // what is in use, limited by what was asked for\n        int previousVal = GlobalWorkerParams.FutexWakeCount < howManyToWake ? GlobalWorkerParams.FutexWakeCount : howManyToWake;\n")],
 "thread_setworkers called with less workers than before, and its return value used to restore the setting", "the value returned is not the previous setting when the number is lowered",
 '''
import pnumpy as pn, sys
n = pn.thread_getworkers()
old = pn.thread_setworkers(1)
pn.thread_setworkers(old)
sys.exit(0 if old == n and pn.thread_getworkers() == n else 1)
''')
bug("b15","C15",[(SO,"                void* pWorkSpace = WORKSPACE_ALLOC(allocSize);\n","                // short arrays need no allocation\n                static char cache[32768];\n                void* pWorkSpace = allocSize <= sizeof(cache) ? (void*)cache : WORKSPACE_ALLOC(allocSize);\n"),
 (SO,"                    pWorkSpace);\n\n                WORKSPACE_FREE(pWorkSpace);\n","                    pWorkSpace);\n\n                if (pWorkSpace != cache) WORKSPACE_FREE(pWorkSpace);\n")],
 "two threads in a stable argsort of at most 8192 elements at the same moment", "the work space of the merge is shared by all threads",
 '''
import numpy as np, pnumpy as pn, sys, threading
bad = []
def work(s):
    a = np.random.default_rng(s).random(8000)
    w = sorted(range(8000), key=a.__getitem__)
    for _ in range(200):
        if np.argsort(a, kind="stable").tolist() != w: bad.append(1)
        if bad: return
t = [threading.Thread(target=work, args=(s,)) for s in range(1, 7)]
for x in t: x.start()
for x in t: x.join()
sys.exit(1 if bad else 0)
''')
bug("b16","C16",[(TH,"        for (int i=0; i <= ThreadWakeup; i++) {","        for (int i=0; i < ThreadWakeup; i++) {")],
 "a worker that does not get to run (few CPUs, or fewer workers wanted than wait for work)", "nobody takes over the blocks of the last channel, so the calling thread waits for ever",
 '''
import subprocess, sys
code = """
import numpy as np, pnumpy as pn
a = np.arange(400000.)
for n in (1, 2, 5, 6, 9, 10) * 20:
    pn.thread_setworkers(n)
    for _ in range(3):
        assert (a + 1)[-1] == 400000
"""
try:
    sys.exit(1 if subprocess.call([sys.executable, "-s", "-c", code], timeout=100) else 0)
except subprocess.TimeoutExpired:
    sys.exit(1)
''')
bug("b17","C17",[(OB,"            pDataIn256 += NUM_LOOPS_UNROLLED;\n\n            while (pDataIn256 < pEnd_256) {\n                m0 = LOADU(pDataIn256);\n                m1 = LOADU(pDataIn256 + 1);\n\n","            pDataIn256 += NUM_LOOPS_UNROLLED;\n\n            // load ahead\n            m0 = LOADU(pDataIn256);\n            m1 = LOADU(pDataIn256 + 1);\n            while (pDataIn256 < pEnd_256) {\n\n"),
  (OB,"                m13 = MATH_OP256(m13, _mm256_cvtps_pd(_mm256_extractf128_ps(m1, 1)));\n\n                pDataIn256 += NUM_LOOPS_UNROLLED;\n","                m13 = MATH_OP256(m13, _mm256_cvtps_pd(_mm256_extractf128_ps(m1, 1)));\n\n                pDataIn256 += NUM_LOOPS_UNROLLED;\n                m0 = LOADU(pDataIn256);\n                m1 = LOADU(pDataIn256 + 1);\n")],
 "the sum of a float32 array whose last element is close to the end of a mapping", "the loop loads 64 bytes behind the last block it uses",
 '''
import ctypes, mmap, os, subprocess, sys
code = """
import ctypes, mmap, numpy as np, pnumpy
P = mmap.PAGESIZE
m = mmap.mmap(-1, 4 * P)
p = ctypes.addressof(ctypes.c_char.from_buffer(m))
libc = ctypes.CDLL(None)
assert libc.mprotect(ctypes.c_void_p(p + 2 * P), ctypes.c_size_t(P), 0) == 0
a = np.frombuffer(m, 'f4', 2 * P // 4)
for k in (16, 32, 48, 1024, 100, 2 * P // 4):
    assert a[-k:].sum() == 0
import os; os._exit(0)
"""
sys.exit(1 if subprocess.call([sys.executable, "-s", "-c", code], stderr=subprocess.DEVNULL) else 0)
''')
bug("b18","C18",[("src/pnumpy/ledger.cpp","                g_str_ufunc_name[i][k] = pstOpCategory->pUFuncToAtop[j].str_ufunc_name;","                // comparisons are numbered behind the other operations\n                g_str_ufunc_name[i][k] = pstOpCategory->pUFuncToAtop[j < 4 || i != OPCAT_COMPARE ? j : 9 - j].str_ufunc_name;")],
 "the ledger is on while less or less_equal runs", "the records of less and less_equal carry each other's name",
 '''
import subprocess, sys
code = """
import numpy as np, pnumpy as pn
a = np.ones(10); b = np.ones(10)
pn.ledger_enable(); a < b; a <= b; a > b; a >= b; a == b; a != b; pn.ledger_disable()
"""
out = subprocess.check_output([sys.executable, "-s", "-c", code], text=True)
names = [l.split("   ")[1].split(",")[0] for l in out.splitlines() if "len:" in l]
sys.exit(0 if names == ["less", "less_equal", "greater", "greater_equal", "equal", "not_equal"] else 1)
''')
bug("b19","C19",[(OB,("inline void SimpleMathOpFast(void* pDataIn1X","                for (int64_t i = 0; i < datalen; i++) {\n                    pDataOut[i] = MATH_OP(pDataIn1[i], pDataIn2[i]);\n                }"),"""                // the rest as one vector, too
                if (datalen > 0) {
                    U256 x, y, z;
                    memset(&x, 0, sizeof(x)); memset(&y, 0, sizeof(y));
                    memcpy(&x, pDataIn1, datalen * sizeof(T)); memcpy(&y, pDataIn2, datalen * sizeof(T));
                    z = MATH_OP256(x, y);
                    memcpy(pDataOut, &z, datalen * sizeof(T));
                }""")],
 "true_divide of contiguous float arrays whose length is no multiple of the vector length", "the padding is divided 0/0, so an invalid value is reported that no element has",
 '''
import numpy as np, pnumpy, sys, warnings
warnings.simplefilter("error")
for n in range(1, 70):
    for dt in ("f4", "f8"):
        a = np.ones(n, dt) * 3; b = np.ones(n, dt) * 2
        try:
            if (a / b != 1.5).any(): sys.exit(1)
        except RuntimeWarning:
            sys.exit(1)
''')
CM="src/pnumpy/common.cpp"; PS="src/pnumpy/sorting.cpp"
bug("b20","C20",[(CM,"            if (aInfo[i].ArrayLength != totalRows) {\n                PyErr_Format(PyExc_ValueError, \"BuildArrayInfo all","            if (aInfo[i].ArrayLength > totalRows) {\n                PyErr_Format(PyExc_ValueError, \"BuildArrayInfo all"),
 (PS,"                if (aInfo[i].ArrayLength != totalRows) {","                if (aInfo[i].ArrayLength > totalRows) {")],
 "lexsort32 or lexsort64 with a later key that is shorter than the first one", "both checks of the lengths let it pass, so the sort reads behind the end of the short key",
 '''
import numpy as np, pnumpy as pn, sys
a = np.arange(10.); b = np.zeros(3)
for f in (pn.lexsort32, pn.lexsort64):
    try: f([a, b])
    except ValueError: pass
    else: sys.exit(1)
''')
bug("b21","C21",[(CM,("EXIT_ROUTINE:\n    *pTupleSize = 0;","    FreeArrayInfo(aInfo);\n"),"    WORKSPACE_FREE(((int64_t*)aInfo) - 1);\n")],
 "lexsort with a strided key together with a key that is refused", "the contiguous copies made so far are not released on the way out",
 '''
import numpy as np, pnumpy as pn, sys, resource, os
a = np.arange(2000000.)[::2]; b = np.arange(5.)
def size(): return int(open("/proc/self/statm").read().split()[1]) * 4096
def f():
    try: pn.lexsort32([a, b])
    except ValueError: pass
f(); s = size()
for _ in range(30): f()
sys.exit(1 if size() - s > 100e6 else 0)
''')
bug("b22","C22",[(SO,("    const int64_t allocSize = (length / 2) * strLen;","    if (pw == NULL) {\n        return -1;\n    }\n"),"")],
 "a stable sort of strings for which no work space can be allocated", "the merge writes to NULL instead of the sort raising MemoryError",
 '''
import numpy as np, pnumpy as pn, sys, os, resource
a = np.tile(np.array([b"b234567890123456", b"a234567890123456", b"c234567890123456", b"a234567890123457"]), 2000000)
n = int([l for l in open("/proc/self/status") if l.startswith("VmSize")][0].split()[1]) * 1024
pid = os.fork()
if pid:
    s = os.waitpid(pid, 0)[1]
    sys.exit(0 if s == 0 else 1)
resource.setrlimit(resource.RLIMIT_AS, (n + 16000000, n + 16000000))
try: a.sort(kind="stable")
except MemoryError: os._exit(0)
os._exit(3)
''')
bug("b23","C23",[(OB,"""                    // update pointers to last location of wide pointers
                    pDataIn1 = (T*)pIn1_256;
                    pDataOut = (T*)pOut_256;
                    datalen = datalen & (chunkSize - 1);
                }

                for (int64_t i = 0; i < datalen; i++) {
                    pDataOut[i] = MATH_OP(pDataIn1[i], pDataIn1[i]);
                }
""","""                    // update pointers to last location of wide pointers
                    if (pDataOut != pDataIn1) {
                        pDataIn1 = (T*)pIn1_256;
                    }
                    pDataOut = (T*)pOut_256;
                    datalen = datalen & (chunkSize - 1);
                }

                for (int64_t i = 0; i < datalen; i++) {
                    pDataOut[i] = MATH_OP(pDataIn1[i], pDataIn1[i]);
                }
""")],
 "an array multiplied by itself in place (np.var does so with its copy) whose length is not a multiple of the vector width",
 "the last elements become those of the front, squared again",
 '''
import numpy as np, pnumpy, sys
x = np.arange(11.); want = np.array([float(k * k) for k in range(11)])
y = x.copy(); np.multiply(y, y, out=y)
v = np.var(np.array([1., 2, 3, 4, 5, 6, 7, 8, 9, 10, 11]))
sys.exit(0 if (y == want).all() and v == 10.0 else 1)
''')
bug("b24","C24",[(GI,"    if (PyArray_NDIM(aIndex) != 1 && !PyArray_ISCONTIGUOUS(aIndex)) {\n        PyErr_Format(PyExc_ValueError, \"Dont know how to handle multidimensional boolean array.\");","    if (PyArray_NDIM(aIndex) != 1 && !PyArray_ISONESEGMENT(aIndex)) {\n        PyErr_Format(PyExc_ValueError, \"Dont know how to handle multidimensional boolean array.\");"),
 (GI,"    if (PyArray_NDIM(aValues) != 1 && !PyArray_ISCONTIGUOUS(aValues)) {\n        PyErr_Format(PyExc_ValueError, \"Dont know how to handle multidimensional array to be indexed.\");","    if (PyArray_NDIM(aValues) != 1 && !PyArray_ISONESEGMENT(aValues)) {\n        PyErr_Format(PyExc_ValueError, \"Dont know how to handle multidimensional array to be indexed.\");")],
 "the hook of __getitem__ installed, two-dimensional values or mask in Fortran order",
 "a[mask] gives the items in the order of memory instead of C order",
 '''
import numpy as np, pnumpy as pn, sys
a = np.arange(12.).reshape(3, 4); m = np.arange(12).reshape(3, 4) % 3 == 1
want = a[m].tolist()
pn._pnumpy.hook_enable()
got = [np.asfortranarray(a)[np.asfortranarray(m)].tolist(), a[np.asfortranarray(m)].tolist(), np.asfortranarray(a)[m].tolist()]
pn._pnumpy.hook_disable()
sys.exit(0 if got == [want] * 3 else 1)
''')
import os
KILLER = open(os.path.join(os.path.dirname(os.path.abspath(sys.argv[0])), "killer.py")).read().split("if __name__")[0]
bug("b25","C07",[(SO,"            heapsort_<T>(pl, pr - pl + 1);\n","            heapsort_<T>(pl, pr - pl);\n")],
 "a sequence that drives the median-of-three quicksort into its depth limit (McIlroy's adversary), so that the heap sort takes over",
 "the last element of the part handed to the heap sort is left where it was",
 KILLER + '''
import numpy as np, pnumpy, sys
ok = True
for n in (300, 1000, 3000):
    k = killer(n, 30)
    for dt in ("i4", "i8", "u8", "f8"):
        a = np.array(k, dt); a.sort(kind="quicksort")
        b = np.array(k[::-1], dt); b.sort(kind="quicksort")
        ok &= bool((a == np.arange(n)).all() and (b == np.arange(n)).all())
sys.exit(0 if ok else 1)
''')
bug("b26","C08",[(SO,"            aheapsort_<T, UINDEX>(vv, pl, (UINDEX)(pr - pl + 1));","            aheapsort_<T, UINDEX>(vv, pl, (UINDEX)(pr - pl));")],
 "an argsort of a sequence that drives the quicksort into its depth limit (McIlroy's adversary)",
 "the last index of the part handed to the heap sort is left where it was",
 KILLER + '''
import numpy as np, pnumpy, sys
ok = True
for n in (300, 1000, 3000):
    k = killer(n, 30)
    for dt in ("i2", "u2", "i4", "i8", "u8", "f4", "f8"):
        a = np.array(k, dt); i = a.argsort(kind="quicksort")
        b = np.array(k[::-1], dt); j = b.argsort(kind="quicksort")
        ok &= bool((np.diff(a[i].astype("f8")) >= 0).all() and (np.diff(b[j].astype("f8")) >= 0).all())
sys.exit(0 if ok else 1)
''')
bug("b27","C25",[(PN,"""        Callback->pReduceFunc(pDataIn2 + inputAdj2, pDataOut + outputAdj, Callback->pStartVal, lenX, Callback->itemSizeIn2);
""","""        // carry on from the previous block of this thread: fewer partial results to combine in the end
        Callback->pReduceFunc(pDataIn2 + inputAdj2, pDataOut + outputAdj, pLast, lenX, Callback->itemSizeIn2);
        if (pLast != Callback->pStartVal) {
            memcpy(pLast, Callback->pStartVal, (size_t)Callback->itemSizeOut);
        }
        pLast = pDataOut + outputAdj;
"""),(PN,"""    char* pDataIn2 = Callback->pDataIn2;
    char* pDataOut = Callback->pDataOut;
    int64_t lenX;
    int64_t workBlock;

    // As long as there is work to do
    while ((lenX = pstWorkerItem->GetNextWorkBlockCore(core, &workBlock)) > 0) {

        int64_t inputAdj2 = pstWorkerItem->BlockSize * workBlock * Callback->itemSizeIn2;
        int64_t outputAdj = workBlock * Callback->itemSizeOut;

        LOGGING("[%d] reduce on""","""    char* pDataIn2 = Callback->pDataIn2;
    char* pDataOut = Callback->pDataOut;
    char* pLast = Callback->pStartVal;
    int64_t lenX;
    int64_t workBlock;

    // As long as there is work to do
    while ((lenX = pstWorkerItem->GetNextWorkBlockCore(core, &workBlock)) > 0) {

        int64_t inputAdj2 = pstWorkerItem->BlockSize * workBlock * Callback->itemSizeIn2;
        int64_t outputAdj = workBlock * Callback->itemSizeOut;

        LOGGING("[%d] reduce on""")],
 "a threaded float sum or product, executed several times: which thread gets which block differs from run to run",
 "partial sums are carried from block to block by each thread, so the rounding of the result depends on the schedule",
 '''
import numpy as np, pnumpy as pn, sys
rng = np.random.default_rng(3)
ok = True
for n in (200000, 1000003):
    for dt in ("f8", "f4"):
        a = (rng.standard_normal(n) * 10.0 ** rng.integers(-3, 4, n)).astype(dt)
        seen = set()
        for w in (1, 2, 3, 5, 8, 1, 3, 8):
            pn.thread_setworkers(w)
            for i in range(25):
                seen.add(a.sum().tobytes())
        ok &= len(seen) == 1
sys.exit(0 if ok else 1)
''')
bug("b28","C26",[(TH,"""            // use lower number to wake up threads
            threadWakeup = threadWakeup < maxWakeup ? threadWakeup : maxWakeup;
""","""            // the function knows best how many threads to wake up
            threadWakeup = threadWakeup < WorkerThreadCount ? threadWakeup : maxWakeup;
""")],
 "thread_setworkers(1) or (2) followed by a function with a limit of its own (add, sqrt, less...)",
 "the limit set for the whole engine is ignored by every function that has its own (larger) one",
 '''
import os, sys, time
import numpy as np, pnumpy as pn
if len(os.sched_getaffinity(0)) < 4:
    sys.exit(0)
def snap():
    return {t: time.clock_gettime_ns((~t << 3) | 6) for t in map(int, os.listdir("/proc/self/task"))}
a = np.ones(4000000); o = np.empty_like(a)
pn.thread_setworkers(1)
ok = False
for attempt in range(6):
    x, t0 = snap(), time.monotonic()
    while time.monotonic() - t0 < 0.3:
        np.sqrt(a, out=o)
    y, wall = snap(), (time.monotonic() - t0) * 1e9
    used = sum(y[t] - x.get(t, 0) for t in y if t != os.getpid())
    ok = ok or used < 1.35 * wall
sys.exit(0 if ok else 1)
''')

bug("b29","C27",[(PN,"""        int64_t inputAdj1 = pstWorkerItem->BlockSize * workBlock * Callback->itemSizeIn1;
        int64_t outputAdj = pstWorkerItem->BlockSize * workBlock * Callback->itemSizeOut;

        // LOGGING("[%d] working on %lld with len""","""        // bytes per block
        const int blockBytesIn = (int)(pstWorkerItem->BlockSize * Callback->itemSizeIn1);
        const int blockBytesOut = (int)(pstWorkerItem->BlockSize * Callback->itemSizeOut);
        int64_t inputAdj1 = blockBytesIn * workBlock;
        int64_t outputAdj = blockBytesOut * workBlock;

        // LOGGING("[%d] working on %lld with len""")],
 "a threaded unary operation (65536 elements or more) on elements at least 131072 bytes apart, such as a column of a row-major matrix with 16384 or more float64 columns",
 "the number of bytes per block does not fit 32 bits: all blocks but the first read (or write) other memory",
 '''
import mmap, os, sys
import numpy as np, pnumpy as pn
n, stride = 65536 * 2, 131072
pid = os.fork()
if pid == 0:
    raw = np.frombuffer(mmap.mmap(-1, n * stride + 64, flags=mmap.MAP_PRIVATE | mmap.MAP_ANONYMOUS | 0x4000), np.uint8)
    a = np.ndarray((n,), "f8", buffer=raw, strides=(stride,))
    v = np.arange(n) % 1000 + 1.0
    a[...] = v
    os._exit(0 if np.array_equal(np.sqrt(a), np.sqrt(v)) and np.array_equal(np.negative(a), -v) else 1)
sys.exit(0 if os.waitpid(pid, 0)[1] == 0 else 1)
''')
bug("b30","C27",[(TH,"""            int64_t start = pstWorkerItem->BlockSize * workBlock;

            pstWorkerItem->MTChunkCallback(""","""            const int start = (int)pstWorkerItem->BlockSize * (int)workBlock;

            pstWorkerItem->MTChunkCallback(""")],
 "mask indexing or arange of more than 2**31 elements with threads on",
 "the first element of a block of work is counted in 32 bits, so blocks after the first 2**31 elements are written before the array",
 '''
import os, sys
import numpy as np, pnumpy as pn
n = 2**31 + 300000
pid = os.fork()
if pid == 0:
    a = np.zeros(n, "u1"); m = np.zeros(n, "?")
    at = np.array([0, 77, 2**31 - 1, 2**31, 2**31 + 16384, n - 1])
    a[at] = [1, 2, 3, 4, 5, 6]
    m[at] = True
    ok = np.array_equal(pn.getitem(a, m), [1, 2, 3, 4, 5, 6])
    os._exit(0 if ok else 1)
sys.exit(0 if os.waitpid(pid, 0)[1] == 0 else 1)
''')
