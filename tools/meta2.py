prop("C13", "No setting of the engine changes any result",
     "Whatever history of enable/disable of the fast loops, of threading, of the recycler, of the number of workers (overall or per function and dtype) and of thread wake modes was applied before, every operation returns what plain numpy returns, as in C01-C12. "
     "Settings only change speed; out-of-range values are clamped or refused without effect on results.",
     ["inputs", "histories"], "sequences of configuration calls with any argument, followed by any operation of C01-C12",
     "The tests run with the default configuration and a couple of toggles; results under few or many workers and under per-function limits are never compared.",
     ["src/pnumpy/_pnumpy.cpp", "src/atop/threads.h", "src/pnumpy/cpu.py"],
     [("choice between original and fast loop, number of workers per function", "src/pnumpy/_pnumpy.cpp"), ("dividing the work over the workers allowed", "src/atop/threads.h")],
     "stateful property-based differential testing against numpy (hypothesis)", DIFF)
prop("C14", "The management interface says and does what it is asked",
     "After any sequence of calls, the isenabled functions, thread_getworkers, thread_zigzag, atop_info and the previous values returned by thread_setworkers and atop_setworkers agree with a simple model of the state, wrong arguments are refused without changing it, and computing never changes it. "
     "After disable() every operation is numpy's own, values and floating point reports included. "
     "cpu_count_linux reports the CPU and core counts the system files describe, whatever subset of them exists, and the clocks and benchmark_func return sane values.",
     ["inputs", "histories"], "sequences of management calls with valid and invalid arguments interleaved with computations; contents of the system files; operations run after disable()",
     "The tests call each switch once or twice; interactions between the switches and the return values over a history are not compared with anything.",
     ["src/pnumpy/_pnumpy.cpp", "src/pnumpy/cpu.py", "src/pnumpy/__init__.py", "src/pnumpy/benchmark.py", "src/atop/threads.h"],
     [("switches, info and per-function workers", "src/pnumpy/_pnumpy.cpp"), ("clamping of the number of workers", "src/atop/threads.h"), ("CPU counts", "src/pnumpy/cpu.py")],
     "model-based stateful property testing (hypothesis)", "Histories are compared call by call with a Python model; disabled operations differentially with numpy in a process without pnumpy.")
prop("C15", "Python threads using pnumpy at the same time do not disturb each other",
     "Whatever operations of C01-C12 two or more Python threads run at the same time, on different data and under any interleaving with each other, with the worker threads and with changes of the configuration, each returns what it returns alone. "
     "No call crashes, deadlocks or writes memory of another.",
     ["inputs", "schedules"], "sets of 2 to 8 operations run in as many Python threads, over and over; sampled switch intervals, delays injected around the atomic operations of the engine",
     "The tests are single threaded; numpy releases the GIL inside ufunc loops, so several callers share one pool of workers, one ring of work items and one set of counters.",
     ["src/atop/threads.h", "src/atop/threads.cpp", "src/pnumpy/_pnumpy.cpp", "src/pnumpy/getitem.cpp", "src/atop/sort.cpp"],
     [("ownership of the ring of work items", "src/atop/threads.h"), ("workers picking up work", "src/atop/threads.cpp"), ("two-pass boolean getitem", "src/pnumpy/getitem.cpp")],
     "property-based concurrency testing with schedule perturbation (hypothesis)", "The outcome of every repetition in every thread is compared with numpy's result or judged as in the inner property; schedules are sampled, not enumerated.")
prop("C16", "Operations finish with the right result wherever they run; the process exits",
     "Whatever set of CPUs the process may run on (1 or more than 64, any numbers), in a forked child, in a fresh thread, under a storm of signals and however the module is imported, every operation of C01-C12 terminates and gives the right result. "
     "The process then exits normally: after main ends, by sys.exit, by an exception, by os._exit or while another thread is still computing.",
     ["inputs", "schedules", "histories"], "process contexts (CPU set, number of CPUs, fork, threads, timer signals, import order, way of exiting) combined with generated cases of C01-C12",
     "The tests run in one process on one machine; the worker threads do not exist after fork, may never be scheduled on few CPUs and are still waiting when the process exits.",
     ["src/atop/threads.h", "src/atop/threads.cpp", "src/pnumpy/cpu.py", "src/pnumpy/_pnumpy.cpp", "src/pnumpy/__init__.py"],
     [("creation of workers and counting CPUs", "src/atop/threads.h"), ("waiting for and waking workers", "src/atop/threads.cpp"), ("import", "src/pnumpy/__init__.py")],
     "property-based differential testing under generated process contexts (hypothesis)", "A hang is a case without an answer for 60 s; values are judged as in the inner property.")
prop("C17", "No operation touches memory that is not part of its operands",
     "Whatever operation of C01-C12 runs on whatever shapes, strides, offsets and lengths, under whatever configuration, pnumpy reads no byte before or after the memory of its operands and writes no byte that is not an element of its result. "
     "The same holds for the memory the engine manages for itself: work buffers, tables, the ring of work items and the workers' stacks.",
     ["inputs", "histories"], "generated cases of C01-C12 with every operand ending (or starting) at an inaccessible page, or run with AddressSanitizer; up to 64 CPUs claimed; bursts of threaded operations",
     "Over-reads of a vector loop and late reads of finished calls change no result, so no comparison of values can see them.",
     ["src/atop/ops_binary.cpp", "src/atop/ops_unary.cpp", "src/atop/ops_compare.cpp", "src/atop/ops_log.cpp", "src/atop/sort.cpp", "src/atop/threads.h", "src/pnumpy/getitem.cpp", "src/pnumpy/conversions.cpp"],
     [("vector loops and their tails", "src/atop/ops_binary.cpp"), ("ring of work items, arguments of finished calls", "src/atop/threads.h"), ("gathering", "src/pnumpy/getitem.cpp")],
     "property-based testing with guard pages and AddressSanitizer (hypothesis)", "Oracle: the memory management unit and AddressSanitizer; results are judged as in the inner property.")
prop("C18", "The ledger records exactly what ran; ledger and recycler change no result",
     "With the ledger on, every loop pnumpy executes is recorded once, with its length, function, type and category and a number of cycles the operation can have taken, and nothing is recorded for operations that are not accelerated or while the ledger is off. "
     "Switching ledger and recycler on or off, at any time and while other threads compute, changes no result, and ledger_isenabled always says what was asked last.",
     ["inputs", "histories", "schedules"], "every accelerated function, type, length and category with the ledger on and off; generated cases of C01-C12 with ledger and recycler on; switching while up to 4 threads compute",
     "The tests only switch the ledger on and off; what is recorded is not looked at.",
     ["src/pnumpy/ledger.cpp", "src/pnumpy/_pnumpy.cpp", "src/pnumpy/recycler.cpp", "src/pnumpy/stubs.h"],
     [("recording", "src/pnumpy/ledger.cpp"), ("timing around each loop", "src/pnumpy/_pnumpy.cpp")],
     "property-based testing against a model of the records (hypothesis)", "Records are read back from the standard output they are printed to (a file in memory).")
prop("C19", "Floating point errors are reported exactly as by numpy",
     "Whatever ufunc or reduction runs on whatever values, the kinds of floating point error (divide by zero, overflow, underflow, invalid) reported to numpy's error handling are those numpy reports. "
     "This holds whether the calculation ran in the calling thread or in worker threads, and under any configuration.",
     ["inputs", "histories"], "generated cases of C01-C06 with special values, all lengths around the threading threshold, under generated configurations",
     "No test looks at warnings; status flags are per thread, so errors in worker threads get lost, and vector comparisons or padded tails raise flags that no element raised.",
     ["src/pnumpy/_pnumpy.cpp", "src/atop/threads.h", "src/atop/ops_compare.cpp", "src/atop/ops_binary.cpp", "src/atop/ops_unary.cpp"],
     [("status of the worker threads", "src/pnumpy/_pnumpy.cpp"), ("vector comparisons", "src/atop/ops_compare.cpp"), ("tails of vector loops", "src/atop/ops_binary.cpp")],
     "property-based differential testing against numpy (hypothesis)", "The set of errors reported per call is compared; underflow of transcendental functions, which depends on the algorithm, is not.")
prop("C20", "Whatever its arguments, a call returns or raises and leaves them alone",
     "Any function of pnumpy, called with any arguments (wrong types, lengths, dtypes, byte orders, layouts, empty or enormous values, hostile objects), returns or raises an ordinary exception. "
     "It does not crash, hang or fail with SystemError, reads and writes nothing outside its arguments, and changes none of them unless that is its purpose.",
     ["inputs", "histories"], "every public function, arguments as they should be with any of them replaced by an arbitrary value, arrays of every dtype and layout against inaccessible pages",
     "Tests pass valid arguments only; pnumpy's C functions check their arguments by hand and then read raw memory.",
     ["src/pnumpy/getitem.cpp", "src/pnumpy/sorting.cpp", "src/pnumpy/recarray.cpp", "src/pnumpy/_pnumpy.cpp", "src/pnumpy/common.cpp", "src/pnumpy/sort.py"],
     [("argument checks of getitem", "src/pnumpy/getitem.cpp"), ("argument checks of lexsort and sort", "src/pnumpy/sorting.cpp"), ("atop_info and atop_setworkers", "src/pnumpy/_pnumpy.cpp")],
     "property-based testing: structured generation of arbitrary arguments (hypothesis), invariants as oracle", "A failure of sort, argsort, argmin, argmax and lexsort is pnumpy's only when numpy alone does not show it.")
prop("C21", "A call leaves nothing behind: memory and references stay as they were",
     "However often a function or operation is repeated, with whatever arguments and whether it succeeds or raises, the memory in use does not grow with the number of calls. "
     "Every reference taken to an argument, a dtype or a type has been given back, and none is given back that was not taken.",
     ["inputs", "histories"], "arbitrary calls as in C20 and generated cases of C01-C12 repeated 30 times or more; blocks of the interpreter, data blocks of numpy, bytes of malloc and reference counts",
     "A leak or a reference given back twice shows in no result; no test looks at either.",
     ["src/pnumpy/getitem.cpp", "src/pnumpy/sorting.cpp", "src/pnumpy/common.cpp", "src/pnumpy/recarray.cpp", "src/pnumpy/_pnumpy.cpp", "src/atop/sort.cpp", "src/atop/atop.cpp"],
     [("references on the paths that raise", "src/pnumpy/getitem.cpp"), ("work space of the sorts", "src/atop/sort.cpp"), ("dictionaries of atop_info", "src/pnumpy/_pnumpy.cpp")],
     "property-based testing (hypothesis), resource counters before and after as oracle", "A suspected leak counts when it shows in three processes and numpy alone does not leave the same behind.")
prop("C22", "Out of memory: a call raises MemoryError or gives the right result",
     "Whichever of the allocations made during a call fails, be it once or from then on, the call raises MemoryError or returns what it returns with memory to spare; it never crashes, hangs, fails with another exception or returns anything else. "
     "It leaves nothing allocated behind, and the calls that follow work as ever.",
     ["inputs", "fault_sequences"], "cases of C01-C12 and arbitrary calls as in C20; the k-th allocation of pnumpy's work space, of interpreter objects made for pnumpy, or of array data fails, once or from then on",
     "No test makes an allocation fail; every work buffer is checked (or not) by hand, many of them on paths that numpy calls back without a way to raise.",
     ["src/pnumpy/sorting.cpp", "src/atop/sort.cpp", "src/pnumpy/getitem.cpp", "src/pnumpy/common.cpp", "src/pnumpy/recarray.cpp", "src/pnumpy/_pnumpy.cpp", "src/pnumpy/sort.py"],
     [("work space of the sorts", "src/atop/sort.cpp"), ("array information of lexsort", "src/pnumpy/common.cpp"), ("conversion of the default of getitem", "src/pnumpy/getitem.cpp")],
     "property-based fault injection: generated calls and failing allocations (hypothesis)", "Oracle: the undisturbed call, judged as in the inner property. Allocations inside numpy and the interpreter are not made to fail.")
prop("C23", "Everything else in numpy gives the same with pnumpy imported",
     "numpy functions, methods, subclasses and protocols that pnumpy does not replace (statistics, linear algebra, FFT, sets, masked and record arrays, strings, dates, objects, random numbers, printing, pickling, indexing, overrides, errors) give the values, types and exceptions they give without pnumpy. "
     "The names, attributes and settings of numpy are unchanged by importing pnumpy (the size of its buffers apart).",
     ["inputs", "histories"], "some 190 recipes of numpy calls over generated arrays of every dtype, shape and layout, short and long, under generated configurations",
     "pnumpy replaces loops inside shared objects (ufuncs, dtypes), so every numpy function that uses them runs different code; its tests call few of them.",
     ["src/pnumpy/_pnumpy.cpp", "src/atop/atop.cpp", "src/atop/ops_binary.cpp", "src/atop/ops_unary.cpp", "src/atop/ops_compare.cpp", "src/atop/sort.cpp", "src/pnumpy/__init__.py"],
     [("replacing the loops of ufuncs and the sorts of dtypes", "src/pnumpy/_pnumpy.cpp"), ("what is enabled on import", "src/pnumpy/__init__.py")],
     "property-based differential testing against numpy (hypothesis)", "Oracle: a process with plain numpy running the same recipe; results that depend on the order of rounding agree to 1e-9.")
prop("C24", "With the hook of array indexing installed, indexing gives what numpy gives",
     "After pnumpy._pnumpy.hook_enable(), a[i] gives for every array, subclass and index (masks of every shape and layout, integers, lists, tuples) the value, type, layout, reference counts or exception numpy gives, "
     "until and after hook_disable(), also for subclasses made meanwhile; installing twice or removing twice changes nothing.",
     ["inputs", "histories"], "arrays of every dtype (objects and records of objects included), 0 to 3 dimensions, every layout, subclasses; masks of equal, transposed, flattened, longer and shorter shapes; the hook on, off, on twice, on and off; cases of C09, C10 and C23 under it",
     "the hook sits under every a[mask] of the process; no test installs it.",
     ["src/pnumpy/_pnumpy.cpp", "src/pnumpy/getitem.cpp"],
     [("the hook", "src/pnumpy/_pnumpy.cpp"), ("boolean lookup", "src/pnumpy/getitem.cpp")],
     "property-based differential testing against numpy (hypothesis)", "Oracle: a process with plain numpy.")
prop("C25", "The same call on the same data gives the same bits every time",
     "Whatever operation of C01-C12 is repeated, its results, written elements and floating point reports are bit for bit those of the first time: whichever workers took which part of the work and in which order, "
     "with any number of workers (overall or per function), any wake order, recycler on or off, in the main thread, another thread, a forked child, under signals, on few CPUs and wherever the operands lie in memory.",
     ["inputs", "schedules", "histories"], "generated cases of C01-C12 executed 2 to 6 times under generated circumstances (workers, wake order, recycler, thread, fork, signals, CPU set, address)",
     "Tests compare one execution with a tolerance; a sum whose rounding depends on the schedule passes them all and makes every computation built on it irreproducible.",
     ["src/pnumpy/_pnumpy.cpp", "src/atop/threads.h", "src/atop/ops_binary.cpp", "src/atop/sort.cpp"],
     [("combination of the partial results of a reduction", "src/pnumpy/_pnumpy.cpp"), ("handing out blocks of work", "src/atop/threads.h")],
     "metamorphic property-based testing: repetition under changed circumstances (hypothesis)", "Oracle: the first execution. Turning threads or the fast loops off is not a circumstance: it replaces the algorithm of float sums. Payloads of NaNs are free.")
prop("C26", "Large operations are shared among the workers, within the limits set",
     "Every accelerated operation on large arrays (the functions and types of atop_info, sort, argsort, lexsort, mask and fancy indexing, arange, recarray_to_colmajor) is computed in part by the worker threads; "
     "no worker takes part while threading is off or the array has fewer than 65536 elements, no more of them than thread_setworkers, and for one function atop_setworkers, allows, and idle workers use no CPU. "
     "This holds after any history of settings, forks, Python threads, floating point exceptions and bursts of operations.",
     ["inputs", "schedules", "histories"], "operations of every kind, type, stride and number of rows after sequences of settings and events; CPU time per thread",
     "Every test passes with no worker at all: that work is done in parallel, and only as allowed, is the purpose of the package and never checked.",
     ["src/atop/threads.h", "src/atop/threads.cpp", "src/pnumpy/_pnumpy.cpp", "src/atop/sort.cpp", "src/pnumpy/getitem.cpp"],
     [("choosing and waking workers", "src/atop/threads.h"), ("the workers' loop", "src/atop/threads.cpp"), ("hooking every function and type", "src/pnumpy/_pnumpy.cpp")],
     "stateful property-based testing with an invariant over per-thread CPU time (hypothesis)", "Measurements are repeated until they show what is expected, 12 s at most, so load delays them only.")

prop("C27", "Operands beyond 2**31 bytes or elements are treated like small ones",
     "Operations on arrays that span more than 2**31 or 2**32 bytes (however few their elements) or have more than 2**31 elements give what they give for small ones: "
     "element-wise operations, reductions, accumulations, in-place and out operations, sort, argsort, argmax, mask and fancy indexing, lexsort, arange, recarray_to_colmajor. "
     "What cannot be represented (32 bit positions of more than 2**31 - 1 rows) raises an exception.",
     ["inputs"], "elements -2**33 to 2**33 bytes apart in sparse memory, every dtype, with and without workers; periodic arrays and single marked elements in arrays of 2**31 - 1 to 2**32 elements",
     "No test has an operand above some megabytes; every offset is computed by hand from strides, block numbers and item sizes, where one 32 bit intermediate silently wraps.",
     ["src/pnumpy/_pnumpy.cpp", "src/atop/threads.h", "src/atop/sort.cpp", "src/pnumpy/getitem.cpp", "src/pnumpy/sorting.cpp", "src/atop/recarray.cpp"],
     [("offsets of blocks of work", "src/pnumpy/_pnumpy.cpp"), ("block numbers", "src/atop/threads.h"), ("positions of rows", "src/pnumpy/sorting.cpp")],
     "property-based differential and metamorphic testing on sparse and periodic operands (hypothesis)", "Oracle: numpy on the same operands (strides); periodic operands give periodic results (lengths). A MemoryError where memory is short is accepted.")
