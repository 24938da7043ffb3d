From 9d045af7eea7e77c62113ac28675b805a6124f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:13 +0000
Subject: [PATCH 01/68] fix: run ufunc loops whose output overlaps an input in
 order

accumulate/cumsum and an out= that trails its input in the same memory were split
over threads (or processed by vector), so results were wrong for 65536+ elements.
---
 src/pnumpy/_pnumpy.cpp | 57 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 46 insertions(+), 11 deletions(-)

diff --git a/src/pnumpy/_pnumpy.cpp b/src/pnumpy/_pnumpy.cpp
index b73b4c1..f5d5fa6 100644
--- a/src/pnumpy/_pnumpy.cpp
+++ b/src/pnumpy/_pnumpy.cpp
@@ -583,6 +583,27 @@ static int64_t UnaryThreadCallbackStrided(struct stMATH_WORKER_ITEM* pstWorkerIt
     return didSomeWork;
 }
 
+//============================================================================
+// Numpy may call an inner loop whose output overlaps an input, relying on the elements being
+// visited in order (accumulate, or an output that trails the input in the same memory).
+// Such a loop cannot be divided among threads nor processed a vector at a time.
+// An output that is exactly the same memory as the input (in place) is not a problem.
+static bool LoopMustRunInOrder(const char* pIn, int64_t strideIn, const char* pOut, int64_t strideOut, int64_t n) {
+    if (n <= 1 || (pIn == pOut && strideIn == strideOut)) {
+        return false;
+    }
+    const int64_t MAX_ITEMSIZE = 16;
+    const int64_t spanIn = strideIn * (n - 1);
+    const int64_t spanOut = strideOut * (n - 1);
+    const int64_t absIn = strideIn < 0 ? -strideIn : strideIn;
+    const int64_t absOut = strideOut < 0 ? -strideOut : strideOut;
+    const char* pInFirst = spanIn < 0 ? pIn + spanIn : pIn;
+    const char* pOutFirst = spanOut < 0 ? pOut + spanOut : pOut;
+    const char* pInEnd = (spanIn < 0 ? pIn : pIn + spanIn) + (absIn && absIn < MAX_ITEMSIZE ? absIn : MAX_ITEMSIZE);
+    const char* pOutEnd = (spanOut < 0 ? pOut : pOut + spanOut) + (absOut && absOut < MAX_ITEMSIZE ? absOut : MAX_ITEMSIZE);
+    return pOutFirst < pInEnd && pInFirst < pOutEnd;
+}
+
 //============================================================================
 // special tables for start values for some reduce functions
 // should handle both int and float zeros
@@ -640,6 +661,14 @@ static void AtopBinaryMathFunction(char** args, const npy_intp* dimensions, cons
     if (!g_Settings.LedgerEnabled) {
         stUFunc* pstUFunc = &g_UFuncLUT[funcop][atype];
         npy_intp n = dimensions[0];
+
+        if (!IS_BINARY_REDUCE &&
+            (LoopMustRunInOrder(args[0], steps[0], args[2], steps[2], n) ||
+             LoopMustRunInOrder(args[1], steps[1], args[2], steps[2], n))) {
+            pstUFunc->pOldFunc(args, dimensions, steps, innerloop);
+            return;
+        }
+
         stMATH_WORKER_ITEM* pWorkItem = THREADER->GetWorkItem(n);
         LOGGING("called with %d %d   funcp: %p  len:%lld   inputs: %p %p %p  steps: %lld %lld %lld  pWorkItem: %p\n", funcop, atype, g_UFuncLUT[funcop][atype].pOldFunc, (long long)n, args[0], args[1], args[2], (long long)steps[0], (long long)steps[1], (long long)steps[2], pWorkItem);
 
@@ -733,17 +762,6 @@ static void AtopBinaryMathFunction(char** args, const npy_intp* dimensions, cons
             // NOT a binary reduce
             ANY_TWO_FUNC pBinaryFunc = pstUFunc->pBinaryFunc;
 
-            char* pInput1 = args[0];
-            char* pInput2 = args[1];
-            char* pOutput = args[2];
-
-            // This code needs review: this is only an issue if array is contiguous and output is within
-            // a cacheline of the input (that is, 32 or 64 bytes) because vector intrinsics process in chunks
-            // Check for address overlap where the output memory lies inside input1 or input2
-            if ((pOutput > pInput1&& pOutput < (pInput1 + 64)) || (pOutput > pInput2&& pOutput < (pInput2 + 64))) {
-                pBinaryFunc = NULL;
-            }
-
             // Check if threading allowed
             if (!pWorkItem) {
                 // Threading not allowed
@@ -807,6 +825,13 @@ static void AtopCompareMathFunction(char** args, const npy_intp* dimensions, con
         // LOGGING("comparison called with %d %d   funcp: %p  len: %lld\n", funcop, atype, g_CompFuncLUT[funcop][atype].pOldFunc, (long long)dimensions[0]);
         stUFunc* pstUFunc = &g_CompFuncLUT[funcop][atype];
         npy_intp n = dimensions[0];
+
+        if (LoopMustRunInOrder(args[0], steps[0], args[2], steps[2], n) ||
+            LoopMustRunInOrder(args[1], steps[1], args[2], steps[2], n)) {
+            pstUFunc->pOldFunc(args, dimensions, steps, innerloop);
+            return;
+        }
+
         stMATH_WORKER_ITEM* pWorkItem = THREADER->GetWorkItem(n);
         ANY_TWO_FUNC pBinaryFunc = pstUFunc->pBinaryFunc;
 
@@ -878,6 +903,11 @@ static void AtopUnaryMathFunction(char** args, const npy_intp* dimensions, const
         UNARY_FUNC pUnaryFunc = pstUFunc->pUnaryFunc;
         LOGGING("unary called with %d %d   funcp: %p  len: %lld  inputs: %p %p  steps: %lld %lld\n", funcop, atype, g_UFuncLUT[funcop][atype].pOldFunc, n, args[0], args[1], (int64_t)steps[0], (int64_t)steps[1]);
 
+        if (LoopMustRunInOrder(args[0], steps[0], args[1], steps[1], n)) {
+            pstUFunc->pOldFunc(args, dimensions, steps, innerloop);
+            return;
+        }
+
         stMATH_WORKER_ITEM* pWorkItem = THREADER->GetWorkItem(n);
         int64_t strideOut = steps[1];
         if (strideOut == 0) {
@@ -942,6 +972,11 @@ static void AtopTrigMathFunction(char** args, const npy_intp* dimensions, const
         UNARY_FUNC pUnaryFunc = pstUFunc->pUnaryFunc;
         //printf("trig called with %d %d   funcp: %p  len: %lld  inputs: %p %p  steps: %lld %lld\n", funcop, atype, pstUFunc->pOldFunc, n, args[0], args[1], (int64_t)steps[0], (int64_t)steps[1]);
 
+        if (LoopMustRunInOrder(args[0], steps[0], args[1], steps[1], n)) {
+            pstUFunc->pOldFunc(args, dimensions, steps, innerloop);
+            return;
+        }
+
         stMATH_WORKER_ITEM* pWorkItem = THREADER->GetWorkItem(n);
         int64_t strideOut = steps[1];
         if (strideOut == 0) {
-- 
2.43.0


From 9631469e9616b29d5a2378f17471e1bfff948a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:13 +0000
Subject: [PATCH 02/68] fix: combine the per-thread results of a threaded numpy
 reduce with packed steps

The stride of the input was reused, so strided input read past the buffer of
partial results.
---
 src/pnumpy/_pnumpy.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pnumpy/_pnumpy.cpp b/src/pnumpy/_pnumpy.cpp
index f5d5fa6..fc1e191 100644
--- a/src/pnumpy/_pnumpy.cpp
+++ b/src/pnumpy/_pnumpy.cpp
@@ -752,7 +752,10 @@ static void AtopBinaryMathFunction(char** args, const npy_intp* dimensions, cons
                     // todo, check if only 1 dimension for reduce
                     dimensions[0] = chunks;
 
-                    pstUFunc->pOldFunc(newargs, dimensions, steps, innerloop);
+                    // the per chunk results are packed, whatever the stride of the input was
+                    npy_intp newsteps[3] = { 0, (npy_intp)itemsize, 0 };
+
+                    pstUFunc->pOldFunc(newargs, dimensions, newsteps, innerloop);
                 }
                 // Free if not on the stack
                 POSSIBLY_STACK_FREE(allocsize, pReduceOfReduce);
-- 
2.43.0


From 5a17677376e22864079dd685c00dd2c8a10746b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 03/68] fix: do not thread the reduce of a non associative
 function

subtract/divide/power/shift/remainder.reduce of 65536+ elements started every chunk
from the output value, and bitwise_xor.reduce mixed the start value in once per chunk.
---
 src/pnumpy/_pnumpy.cpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/pnumpy/_pnumpy.cpp b/src/pnumpy/_pnumpy.cpp
index fc1e191..4664e6f 100644
--- a/src/pnumpy/_pnumpy.cpp
+++ b/src/pnumpy/_pnumpy.cpp
@@ -626,6 +626,7 @@ char*
 GetReduceStartVal(int funcop, int atype) {
     switch (funcop) {
     case BINARY_OPERATION::ADD:
+    case BINARY_OPERATION::BITWISE_XOR:
         return g_startval_zero;
 
     case BINARY_OPERATION::MUL:
@@ -653,6 +654,24 @@ GetReduceStartVal(int funcop, int atype) {
 }
 
 
+//============================================================================
+// Returns true if a reduce can be divided in chunks: the function has to be associative
+static bool CanDivideReduce(int funcop) {
+    switch (funcop) {
+    case BINARY_OPERATION::ADD:
+    case BINARY_OPERATION::MUL:
+    case BINARY_OPERATION::MIN:
+    case BINARY_OPERATION::MAX:
+    case BINARY_OPERATION::LOGICAL_AND:
+    case BINARY_OPERATION::LOGICAL_OR:
+    case BINARY_OPERATION::BITWISE_AND:
+    case BINARY_OPERATION::BITWISE_OR:
+    case BINARY_OPERATION::BITWISE_XOR:
+        return true;
+    }
+    return false;
+}
+
 //============================================================================
 // For binary math functions like add, sbutract, multiply.
 // 2 inputs and 1 output
@@ -669,6 +688,11 @@ static void AtopBinaryMathFunction(char** args, const npy_intp* dimensions, cons
             return;
         }
 
+        if (IS_BINARY_REDUCE && !CanDivideReduce(funcop)) {
+            pstUFunc->pOldFunc(args, dimensions, steps, innerloop);
+            return;
+        }
+
         stMATH_WORKER_ITEM* pWorkItem = THREADER->GetWorkItem(n);
         LOGGING("called with %d %d   funcp: %p  len:%lld   inputs: %p %p %p  steps: %lld %lld %lld  pWorkItem: %p\n", funcop, atype, g_UFuncLUT[funcop][atype].pOldFunc, (long long)n, args[0], args[1], args[2], (long long)steps[0], (long long)steps[1], (long long)steps[2], pWorkItem);
 
-- 
2.43.0


From be4685c4a85e279a81e2dde2356b42f57b7eeac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 04/68] fix: use unaligned loads in the vector reduce

prod() of unsigned integers crashed when the data were not 32 byte aligned.
---
 src/atop/ops_binary.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/atop/ops_binary.cpp b/src/atop/ops_binary.cpp
index d59e778..55cc994 100644
--- a/src/atop/ops_binary.cpp
+++ b/src/atop/ops_binary.cpp
@@ -209,8 +209,8 @@ inline void ReduceMathOpFast(void* pDataIn1X, void* pDataOutX, void* pStartVal,
             pDataIn256 += NUM_LOOPS_UNROLLED;
 
             while (pDataIn256 < pEnd_256) {
-                m0 = MATH_OP256(m0, pDataIn256[0]);
-                m1 = MATH_OP256(m1, pDataIn256[1]);
+                m0 = MATH_OP256(m0, LOADU(pDataIn256));
+                m1 = MATH_OP256(m1, LOADU(pDataIn256 + 1));
                 pDataIn256 += NUM_LOOPS_UNROLLED;
             }
 
-- 
2.43.0


From a5a0d64f20305ad1a10fd798147ce0a51f9053a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 05/68] fix: float32 sum/prod read past the vector of partial
 results

---
 src/atop/ops_binary.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/atop/ops_binary.cpp b/src/atop/ops_binary.cpp
index 55cc994..3f679f1 100644
--- a/src/atop/ops_binary.cpp
+++ b/src/atop/ops_binary.cpp
@@ -267,7 +267,8 @@ inline void ReduceMathOpFastUpcast(void* pDataIn1X, void* pDataOutX, void* pStar
         // TJD: testing indicates unrolling size of 2 is 3% faster
         const int64_t NUM_LOOPS_UNROLLED = 2;
         const int64_t chunkSize = NUM_LOOPS_UNROLLED * (sizeof(U256) / sizeof(DOWNCAST));
-        int64_t perReg = sizeof(U256) / sizeof(DOWNCAST);
+        // number of (upcast) values in the register that is reduced horizontally
+        int64_t perReg = sizeof(U256d) / sizeof(UPCAST);
 
         // NOTE: numpy uses the output val to seed the first input
         UPCAST startval = *(DOWNCAST*)pStartVal;
-- 
2.43.0


From 9c8934da613ab12fdefb768009684431ab26fe3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:48 +0000
Subject: [PATCH 06/68] fix: absolute of -0.0 in the scalar loops

---
 src/atop/ops_unary.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/atop/ops_unary.cpp b/src/atop/ops_unary.cpp
index 7d249fc..92e95cd 100644
--- a/src/atop/ops_unary.cpp
+++ b/src/atop/ops_unary.cpp
@@ -181,6 +181,10 @@ const union
 
 
 template<typename T> static const inline T ABS_OP(T x) { return x < 0 ? -x : x; }
+// clear the sign bit of floats, so that -0.0 becomes 0.0
+template<> const inline float ABS_OP<float>(float x) { return std::fabs(x); }
+template<> const inline double ABS_OP<double>(double x) { return std::fabs(x); }
+template<> const inline long double ABS_OP<long double>(long double x) { return std::fabs(x); }
 template<typename T> static const inline double FABS_OP(T x) { return x < 0 ? -x : x; }
 
 // Invalid int mode (consider if we should return invalid when we discover invalid)
-- 
2.43.0


From 473f33683373dbc09725978c108ac26d77e38560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:48 +0000
Subject: [PATCH 07/68] fix: negative of 0.0 in the vector loops

---
 src/atop/ops_unary.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/atop/ops_unary.cpp b/src/atop/ops_unary.cpp
index 92e95cd..7555cf5 100644
--- a/src/atop/ops_unary.cpp
+++ b/src/atop/ops_unary.cpp
@@ -297,15 +297,17 @@ static const inline __m256i NEG_OP_256i16(__m256i x) { const __m256i m8 = _mm256
 static const inline __m256i NEG_OP_256i8(__m256i x) { const __m256i m8 = _mm256_setzero_si256(); return _mm256_sub_epi8(m8, x); }
 
 template<typename T> static const inline __m256  NEG_OP_256(__m256 x) {
-    const __m256 m8 = _mm256_setzero_ps();
+    // flip the sign bit: 0.0 - x would give 0.0 for 0.0
+    const __m256 m8 = _mm256_set1_ps(-0.0f);
     // The second operand does not need to be unaligned loaded
-    return _mm256_sub_ps(m8, x);
+    return _mm256_xor_ps(m8, x);
 }
 
 template<typename T> static const inline __m256d  NEG_OP_256(__m256d x) {
-    const __m256d m8 = _mm256_setzero_pd();
+    // flip the sign bit: 0.0 - x would give 0.0 for 0.0
+    const __m256d m8 = _mm256_set1_pd(-0.0);
     // The second operand does not need to be unaligned loaded
-    return _mm256_sub_pd(m8, x);
+    return _mm256_xor_pd(m8, x);
 }
 
 template<typename T> static const inline __m256  ROUND_OP_256(__m256 x) { return _mm_roundme_ps(x); }
-- 
2.43.0


From d87f2050dae71c38d26687e6ce432f49be22405d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:48 +0000
Subject: [PATCH 08/68] fix: rint rounds half to even

---
 src/atop/ops_unary.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/atop/ops_unary.cpp b/src/atop/ops_unary.cpp
index 7555cf5..840a208 100644
--- a/src/atop/ops_unary.cpp
+++ b/src/atop/ops_unary.cpp
@@ -212,9 +212,9 @@ template<typename T> static const inline bool ISNORMAL_OP(T x) { return std::isn
 template<typename T> static const inline bool ISNOTNORMAL_OP(T x) { return !std::isnormal(x); }
 template<typename T> static const inline bool ISNANORZERO_OP(T x) { return x == 0.0 || std::isnan(x); }
 
-template<typename T> static const inline long double ROUND_OP(long double x) { return roundl(x); }
-template<typename T> static const inline double ROUND_OP(double x) { return round(x); }
-template<typename T> static const inline float ROUND_OP(float x) { return roundf(x); }
+template<typename T> static const inline long double ROUND_OP(long double x) { return rintl(x); }
+template<typename T> static const inline double ROUND_OP(double x) { return rint(x); }
+template<typename T> static const inline float ROUND_OP(float x) { return rintf(x); }
 
 template<typename T> static const inline long double FLOOR_OP(long double x) { return floorl(x); }
 template<typename T> static const inline double FLOOR_OP(double x) { return floor(x); }
-- 
2.43.0


From 9365e40a174f01cac09a9a29234408666d704dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:20 +0000
Subject: [PATCH 09/68] fix: minimum and maximum return the nan when one
 operand is a nan

---
 src/atop/ops_binary.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/atop/ops_binary.cpp b/src/atop/ops_binary.cpp
index 3f679f1..d4ac238 100644
--- a/src/atop/ops_binary.cpp
+++ b/src/atop/ops_binary.cpp
@@ -59,8 +59,8 @@ static const inline void STOREA(__m256i* x, __m256i y) { _mm256_store_si256((__m
 template<typename T> static const inline T AddOp(T x, T y) { return x + y; }
 template<typename T> static const inline T SubOp(T x, T y) { return x - y; }
 template<typename T> static const inline T MulOp(T x, T y) { return x * y; }
-template<typename T> static const inline T MinOp(T x, T y) { return x < y? x : y; }
-template<typename T> static const inline T MaxOp(T x, T y) { return x > y? x : y; }
+template<typename T> static const inline T MinOp(T x, T y) { return (x < y || x != x) ? x : y; }
+template<typename T> static const inline T MaxOp(T x, T y) { return (x > y || x != x) ? x : y; }
 template<typename T> static const inline double DivOp(T x, T y) { return (double)x / (double)y; }
 template<typename T> static const inline float DivOp(float x, T y) { return x / y; }
 template<typename T> static const inline long double DivOp(long double x, T y) { return x / y; }
@@ -143,8 +143,9 @@ static const inline __m256i MIN_OP_256u16(__m256i x, __m256i y) { return _mm256_
 static const inline __m256i MIN_OP_256i16(__m256i x, __m256i y) { return _mm256_min_epi16(x, y); }
 static const inline __m256i MIN_OP_256i32(__m256i x, __m256i y) { return _mm256_min_epi32(x, y); }
 static const inline __m256i MIN_OP_256u32(__m256i x, __m256i y) { return _mm256_min_epu32(x, y); }
-static const inline __m256  MIN_OP_256f32(__m256 x, __m256 y) { return _mm256_min_ps(x, y); }
-static const inline __m256d MIN_OP_256f64(__m256d x, __m256d y) { return _mm256_min_pd(x, y); }
+// NOTE: the intrinsic returns the second operand when either is a nan, numpy returns the nan
+static const inline __m256  MIN_OP_256f32(__m256 x, __m256 y) { return _mm256_blendv_ps(_mm256_min_ps(x, y), x, _mm256_cmp_ps(x, x, _CMP_UNORD_Q)); }
+static const inline __m256d MIN_OP_256f64(__m256d x, __m256d y) { return _mm256_blendv_pd(_mm256_min_pd(x, y), x, _mm256_cmp_pd(x, x, _CMP_UNORD_Q)); }
 
 static const inline __m256i MAX_OP_256i8(__m256i x, __m256i y) { return _mm256_max_epi8(x, y); }
 static const inline __m256i MAX_OP_256u8(__m256i x, __m256i y) { return _mm256_max_epu8(x, y); }
@@ -152,8 +153,9 @@ static const inline __m256i MAX_OP_256u16(__m256i x, __m256i y) { return _mm256_
 static const inline __m256i MAX_OP_256i16(__m256i x, __m256i y) { return _mm256_max_epi16(x, y); }
 static const inline __m256i MAX_OP_256i32(__m256i x, __m256i y) { return _mm256_max_epi32(x, y); }
 static const inline __m256i MAX_OP_256u32(__m256i x, __m256i y) { return _mm256_max_epu32(x, y); }
-static const inline __m256  MAX_OP_256f32(__m256 x, __m256 y) { return _mm256_max_ps(x, y); }
-static const inline __m256d MAX_OP_256f64(__m256d x, __m256d y) { return _mm256_max_pd(x, y); }
+// NOTE: the intrinsic returns the second operand when either is a nan, numpy returns the nan
+static const inline __m256  MAX_OP_256f32(__m256 x, __m256 y) { return _mm256_blendv_ps(_mm256_max_ps(x, y), x, _mm256_cmp_ps(x, x, _CMP_UNORD_Q)); }
+static const inline __m256d MAX_OP_256f64(__m256d x, __m256d y) { return _mm256_blendv_pd(_mm256_max_pd(x, y), x, _mm256_cmp_pd(x, x, _CMP_UNORD_Q)); }
 
 // mask off low 32bits
 static const __m256i masklo = _mm256_set1_epi64x(0xFFFFFFFFLL);
-- 
2.43.0


From 6a3e48820b8e507e5db9e173472e844aa312adb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:35 +0000
Subject: [PATCH 10/68] fix: floor_divide of floats follows the remainder

---
 src/atop/ops_binary.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/atop/ops_binary.cpp b/src/atop/ops_binary.cpp
index d4ac238..82c2c77 100644
--- a/src/atop/ops_binary.cpp
+++ b/src/atop/ops_binary.cpp
@@ -77,9 +77,24 @@ template<typename T> static const inline T FloorDivOp(T x, T y) {
     }
     else return 0;
 }
-template<typename T> static const inline long double FloorDivOp(long double x, long double y) { if (y == y) return floorl(x / y); else return NAN; }
-template<typename T> static const inline double FloorDivOp(double x, double y) { if (y == y) return floor(x / y); else return NAN; }
-template<typename T> static const inline float FloorDivOp(float x, float y) { if (y == y) return floorf(x / y); else return NAN; }
+// The quotient that belongs to Python's remainder (same steps as npy_divmod): floor(x / y) is off by one when x / y
+// rounds up to an integer, and inf // y is nan.
+template<typename T> static const inline T FloorDivFloat(T x, T y) {
+    if (y == 0) return x / y;
+
+    T mod = std::fmod(x, y);
+    T div = (x - mod) / y;
+    if (mod != 0 && ((y < 0) != (mod < 0))) div -= 1;
+
+    if (div == 0) return std::copysign((T)0, x / y);
+
+    T q = std::floor(div);
+    if (div - q > (T)0.5) q += 1;
+    return q;
+}
+template<typename T> static const inline long double FloorDivOp(long double x, long double y) { return FloorDivFloat<long double>(x, y); }
+template<typename T> static const inline double FloorDivOp(double x, double y) { return FloorDivFloat<double>(x, y); }
+template<typename T> static const inline float FloorDivOp(float x, float y) { return FloorDivFloat<float>(x, y); }
 
 // bitwise operations
 template<typename T> static const inline T AndOp(T x, T y) { return x & y; }
-- 
2.43.0


From ef4a2410e02e295e00341d8c791087a3f4ba8e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:48 +0000
Subject: [PATCH 11/68] fix: int8/bool compare loop ran its tail twice

---
 src/atop/ops_compare.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/atop/ops_compare.cpp b/src/atop/ops_compare.cpp
index e857711..bb1f551 100644
--- a/src/atop/ops_compare.cpp
+++ b/src/atop/ops_compare.cpp
@@ -1238,6 +1238,7 @@ static void CompareInt8(void* pDataIn, void* pDataIn2, void* pDataOut, int64_t l
                     for (int64_t i = 0; i < len; i++) {
                         pDataOutX[i] = COMPARE(pDataInX[i], pDataIn2X[i]);
                     }
+                    return;
                 }
             }
     }
-- 
2.43.0


From 0bd9746fbb729638ee7b74ac45df946d0c315629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:22 +0000
Subject: [PATCH 12/68] fix: exp, log, sin, cos of arguments outside of the
 range of the vector routines

---
 src/atop/ops_trig.cpp | 50 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 40 insertions(+), 10 deletions(-)

diff --git a/src/atop/ops_trig.cpp b/src/atop/ops_trig.cpp
index faa1dc5..7b42e2b 100644
--- a/src/atop/ops_trig.cpp
+++ b/src/atop/ops_trig.cpp
@@ -1,5 +1,6 @@
 #include "common_inc.h"
 #include <cmath>
+#include <cfloat>
 #include "invalids.h"
 #include "thread"
 
@@ -224,10 +225,31 @@ template<typename T> static const inline __m256d CBRT_OP_256(__m256d x) { return
 #endif
 
 
+//-------------------------------------------------------------------
+// The vector routines are only valid inside a range: no nan, no inf, no overflow or denormal result, no large angle.
+// A vector with a lane outside of the range is computed one at a time.
+template<typename U256> static inline bool ANY_RANGE_256(U256 x) { return true; }
+
+static inline bool IN_RANGE_256(__m256 x, float lo, float hi) {
+    const __m256 in = _mm256_and_ps(_mm256_cmp_ps(x, _mm256_set1_ps(lo), _CMP_GE_OQ), _mm256_cmp_ps(x, _mm256_set1_ps(hi), _CMP_LE_OQ));
+    return _mm256_movemask_ps(in) == 0xff;
+}
+static inline bool IN_RANGE_256(__m256d x, double lo, double hi) {
+    const __m256d in = _mm256_and_pd(_mm256_cmp_pd(x, _mm256_set1_pd(lo), _CMP_GE_OQ), _mm256_cmp_pd(x, _mm256_set1_pd(hi), _CMP_LE_OQ));
+    return _mm256_movemask_pd(in) == 0xf;
+}
+
+template<typename U256> static inline bool SINCOS_RANGE_256(__m256 x) { return IN_RANGE_256(x, -8192.0f, 8192.0f); }
+template<typename U256> static inline bool SINCOS_RANGE_256(__m256d x) { return IN_RANGE_256(x, -1.0e6, 1.0e6); }
+template<typename U256> static inline bool EXP_RANGE_256(__m256 x) { return IN_RANGE_256(x, -87.0f, 87.0f); }
+template<typename U256> static inline bool EXP_RANGE_256(__m256d x) { return IN_RANGE_256(x, -708.0, 708.0); }
+template<typename U256> static inline bool LOG_RANGE_256(__m256 x) { return IN_RANGE_256(x, FLT_MIN, FLT_MAX); }
+template<typename U256> static inline bool LOG_RANGE_256(__m256d x) { return IN_RANGE_256(x, DBL_MIN, DBL_MAX); }
+
 //-------------------------------------------------------------------
 // T = data type as input
 // MathOp operation to perform
-template<typename T, typename U256, const T MATH_OP(T), const U256 MATH_OP256(U256)>
+template<typename T, typename U256, const T MATH_OP(T), const U256 MATH_OP256(U256), bool RANGE_256(U256) = ANY_RANGE_256<U256>>
 static inline void UnaryOpFast(void* pDataIn, void* pDataOut, int64_t len, int64_t strideIn, int64_t strideOut) {
 
     T* pIn = (T*)pDataIn;
@@ -258,7 +280,15 @@ static inline void UnaryOpFast(void* pDataIn, void* pDataOut, int64_t len, int64
         do {
             // Use 256 bit registers which hold 8 floats or 4 doubles
             // The first operand should allow unaligned loads
-            STOREU(pOut_256, MATH_OP256(LOADU(pIn1_256)));
+            const U256 x = LOADU(pIn1_256);
+            if (RANGE_256(x)) {
+                STOREU(pOut_256, MATH_OP256(x));
+            }
+            else {
+                for (int64_t i = 0; i < chunkSize; i++) {
+                    ((T*)pOut_256)[i] = MATH_OP(((T*)pIn1_256)[i]);
+                }
+            }
             pIn1_256 += 1;
             pOut_256 += 1;
 
@@ -584,16 +614,16 @@ UNARY_FUNC GetTrigOpFast(int func, int atopInType1, int* wantedOutType) {
     case TRIG_OPERATION::SIN:
         *wantedOutType = atopInType1;
         switch (atopInType1) {
-        case ATOP_FLOAT:  return UnaryOpFast<float, __m256, SIN_OP<float>, SIN_OP_256<__m256>>;
-        case ATOP_DOUBLE: return UnaryOpFast<double, __m256d, SIN_OP<double>, SIN_OP_256<__m256d>>;
+        case ATOP_FLOAT:  return UnaryOpFast<float, __m256, SIN_OP<float>, SIN_OP_256<__m256>, SINCOS_RANGE_256<__m256>>;
+        case ATOP_DOUBLE: return UnaryOpFast<double, __m256d, SIN_OP<double>, SIN_OP_256<__m256d>, SINCOS_RANGE_256<__m256d>>;
         }
         break;
 
     case TRIG_OPERATION::COS:
         *wantedOutType = atopInType1;
         switch (atopInType1) {
-        case ATOP_FLOAT:  return UnaryOpFast<float, __m256, COS_OP<float>, COS_OP_256<__m256>>;
-        case ATOP_DOUBLE: return UnaryOpFast<double, __m256d, COS_OP<double>, COS_OP_256<__m256d>>;
+        case ATOP_FLOAT:  return UnaryOpFast<float, __m256, COS_OP<float>, COS_OP_256<__m256>, SINCOS_RANGE_256<__m256>>;
+        case ATOP_DOUBLE: return UnaryOpFast<double, __m256d, COS_OP<double>, COS_OP_256<__m256d>, SINCOS_RANGE_256<__m256d>>;
         }
         break;
     case TRIG_OPERATION::TAN:
@@ -703,8 +733,8 @@ UNARY_FUNC GetTrigOpFast(int func, int atopInType1, int* wantedOutType) {
     case TRIG_OPERATION::EXP:
         *wantedOutType = atopInType1;
         switch (atopInType1) {
-        case ATOP_FLOAT:  return UnaryOpFast<float, __m256, EXP_OP<float>, EXP_OP_256<__m256>>;
-        case ATOP_DOUBLE: return UnaryOpFast<double, __m256d, EXP_OP<double>, EXP_OP_256<__m256d>>;
+        case ATOP_FLOAT:  return UnaryOpFast<float, __m256, EXP_OP<float>, EXP_OP_256<__m256>, EXP_RANGE_256<__m256>>;
+        case ATOP_DOUBLE: return UnaryOpFast<double, __m256d, EXP_OP<double>, EXP_OP_256<__m256d>, EXP_RANGE_256<__m256d>>;
         }
         break;
 
@@ -731,8 +761,8 @@ UNARY_FUNC GetTrigOpFast(int func, int atopInType1, int* wantedOutType) {
     case TRIG_OPERATION::LOG:
         *wantedOutType = atopInType1;
         switch (atopInType1) {
-        case ATOP_FLOAT:  return UnaryOpFast<float, __m256, LOG_OP<float>, LOG_OP_256<__m256>>;
-        case ATOP_DOUBLE: return UnaryOpFast<double, __m256d, LOG_OP<double>, LOG_OP_256<__m256d>>;
+        case ATOP_FLOAT:  return UnaryOpFast<float, __m256, LOG_OP<float>, LOG_OP_256<__m256>, LOG_RANGE_256<__m256>>;
+        case ATOP_DOUBLE: return UnaryOpFast<double, __m256d, LOG_OP<double>, LOG_OP_256<__m256d>, LOG_RANGE_256<__m256d>>;
         }
         break;
 
-- 
2.43.0


From 6f1a4b4857d925bfa4e2da4c7da747bff52120dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:22 +0000
Subject: [PATCH 13/68] fix: exp and log of doubles use double precision
 coefficients and exponent bias

---
 src/atop/avx_mathfun.h | 94 ++++++++++++++++++++++++------------------
 1 file changed, 54 insertions(+), 40 deletions(-)

diff --git a/src/atop/avx_mathfun.h b/src/atop/avx_mathfun.h
index 6ab7fec..248a07d 100644
--- a/src/atop/avx_mathfun.h
+++ b/src/atop/avx_mathfun.h
@@ -103,8 +103,8 @@ _PI32_CONST256d(1, 1);
 _PI32_CONST256d(inv1, ~(int64_t)1);   // or ~1LL  or -2?
 _PI32_CONST256d(2, 2);
 _PI32_CONST256d(4, 4);
-// srli 52 then mask off exponent (11 bits), note 0xffe = infinity
-_PI32_CONST256d(0x7f, 0x7fe);
+// srli 52 then mask off exponent (11 bits), note 0x7ff = infinity, the bias is 0x3ff
+_PI32_CONST256d(0x3ff, 0x3ff);
 
 
 //  Only works for inputs in the range: [-2^51, 2^51]
@@ -145,16 +145,19 @@ FORCE_INLINE static __m256d int64_to_double_fast_precise(const __m256i v)
 // Natural Log
 //
 _PS256d_CONST(cephes_SQRTHF, 0.707106781186547524);
-_PS256d_CONST(cephes_log_p0, 7.0376836292E-2);
-_PS256d_CONST(cephes_log_p1, -1.1514610310E-1);
-_PS256d_CONST(cephes_log_p2, 1.1676998740E-1);
-_PS256d_CONST(cephes_log_p3, -1.2420140846E-1);
-_PS256d_CONST(cephes_log_p4, +1.4249322787E-1);
-_PS256d_CONST(cephes_log_p5, -1.6668057665E-1);
-_PS256d_CONST(cephes_log_p6, +2.0000714765E-1);
-_PS256d_CONST(cephes_log_p7, -2.4999993993E-1);
-_PS256d_CONST(cephes_log_p8, +3.3333331174E-1);
-_PS256d_CONST(cephes_log_q1, -2.12194440e-4);
+// coefficients of cephes log(), the float version only needs a polynomial
+_PS256d_CONST(cephes_log_p0, 1.01875663804580931796E-4);
+_PS256d_CONST(cephes_log_p1, 4.97494994976747001425E-1);
+_PS256d_CONST(cephes_log_p2, 4.70579119878881725854E0);
+_PS256d_CONST(cephes_log_p3, 1.44989225341610930846E1);
+_PS256d_CONST(cephes_log_p4, 1.79368678507819816313E1);
+_PS256d_CONST(cephes_log_p5, 7.70838733755885391666E0);
+_PS256d_CONST(cephes_log_d1, 1.12873587189167450590E1);
+_PS256d_CONST(cephes_log_d2, 4.52279145837532221105E1);
+_PS256d_CONST(cephes_log_d3, 8.29875266912776603211E1);
+_PS256d_CONST(cephes_log_d4, 7.11544750618563894466E1);
+_PS256d_CONST(cephes_log_d5, 2.31251620126765340583E1);
+_PS256d_CONST(cephes_log_q1, -2.121944400546905827679E-4);
 _PS256d_CONST(cephes_log_q2, 0.693359375);
 
 _PS256_CONST(cephes_SQRTHF, 0.707106781186547524f);
@@ -265,7 +268,7 @@ FORCE_INLINE static v4df log256_pd(v4df x) {
     x = _mm256_or_pd(x, _pd256d_0p5);
 
     // this is again another AVX2 instruction
-    imm0 = _mm256_sub_epi64(imm0, _pi32_256d_0x7f);
+    imm0 = _mm256_sub_epi64(imm0, _pi32_256d_0x3ff);
     v4df e =int64_to_double(imm0);
 
     e = _mm256_add_pd(e, one);
@@ -296,12 +299,17 @@ FORCE_INLINE static v4df log256_pd(v4df x) {
     y = _mm256_add_pd(y, _pd256d_cephes_log_p4);
     y = _mm256_mul_pd(y, x);
     y = _mm256_add_pd(y, _pd256d_cephes_log_p5);
-    y = _mm256_mul_pd(y, x);
-    y = _mm256_add_pd(y, _pd256d_cephes_log_p6);
-    y = _mm256_mul_pd(y, x);
-    y = _mm256_add_pd(y, _pd256d_cephes_log_p7);
-    y = _mm256_mul_pd(y, x);
-    y = _mm256_add_pd(y, _pd256d_cephes_log_p8);
+
+    v4df d = _mm256_add_pd(x, _pd256d_cephes_log_d1);
+    d = _mm256_mul_pd(d, x);
+    d = _mm256_add_pd(d, _pd256d_cephes_log_d2);
+    d = _mm256_mul_pd(d, x);
+    d = _mm256_add_pd(d, _pd256d_cephes_log_d3);
+    d = _mm256_mul_pd(d, x);
+    d = _mm256_add_pd(d, _pd256d_cephes_log_d4);
+    d = _mm256_mul_pd(d, x);
+    d = _mm256_add_pd(d, _pd256d_cephes_log_d5);
+    y = _mm256_div_pd(y, d);
     y = _mm256_mul_pd(y, x);
 
     y = _mm256_mul_pd(y, z);
@@ -323,19 +331,21 @@ FORCE_INLINE static v4df log256_pd(v4df x) {
 //==========================================================================
 // Exponent
 //
-_PS256d_CONST(exp_hi, 88.3762626647949);
-_PS256d_CONST(exp_lo, -88.3762626647949);
+_PS256d_CONST(exp_hi, 709.0);
+_PS256d_CONST(exp_lo, -708.0);
 
 _PS256d_CONST(cephes_LOG2EF, 1.44269504088896341);
-_PS256d_CONST(cephes_exp_C1, 0.693359375);
-_PS256d_CONST(cephes_exp_C2, -2.12194440e-4);
-
-_PS256d_CONST(cephes_exp_p0, 1.9875691500E-4);
-_PS256d_CONST(cephes_exp_p1, 1.3981999507E-3);
-_PS256d_CONST(cephes_exp_p2, 8.3334519073E-3);
-_PS256d_CONST(cephes_exp_p3, 4.1665795894E-2);
-_PS256d_CONST(cephes_exp_p4, 1.6666665459E-1);
-_PS256d_CONST(cephes_exp_p5, 5.0000001201E-1);
+_PS256d_CONST(cephes_exp_C1, 6.93145751953125E-1);
+_PS256d_CONST(cephes_exp_C2, 1.42860682030941723212E-6);
+
+// coefficients of cephes exp(), the float version only needs a polynomial
+_PS256d_CONST(cephes_exp_p0, 1.26177193074810590878E-4);
+_PS256d_CONST(cephes_exp_p1, 3.02994407707441961300E-2);
+_PS256d_CONST(cephes_exp_p2, 9.99999999999999999910E-1);
+_PS256d_CONST(cephes_exp_q0, 3.00198505138664455042E-6);
+_PS256d_CONST(cephes_exp_q1, 2.52448340349684104192E-3);
+_PS256d_CONST(cephes_exp_q2, 2.27265548208155028766E-1);
+_PS256d_CONST(cephes_exp_q3, 2.00000000000000000005E0);
 
 _PS256_CONST(exp_hi, 88.3762626647949f);
 _PS256_CONST(exp_lo, -88.3762626647949f);
@@ -439,26 +449,30 @@ FORCE_INLINE static v4df exp256_pd(v4df x) {
 
     z = _mm256_mul_pd(x, x);
 
+    /* exp(x) = 1 + 2x P(x^2) / (Q(x^2) - x P(x^2)) */
     v4df y = _pd256d_cephes_exp_p0;
-    y = _mm256_mul_pd(y, x);
+    y = _mm256_mul_pd(y, z);
     y = _mm256_add_pd(y, _pd256d_cephes_exp_p1);
-    y = _mm256_mul_pd(y, x);
+    y = _mm256_mul_pd(y, z);
     y = _mm256_add_pd(y, _pd256d_cephes_exp_p2);
     y = _mm256_mul_pd(y, x);
-    y = _mm256_add_pd(y, _pd256d_cephes_exp_p3);
-    y = _mm256_mul_pd(y, x);
-    y = _mm256_add_pd(y, _pd256d_cephes_exp_p4);
-    y = _mm256_mul_pd(y, x);
-    y = _mm256_add_pd(y, _pd256d_cephes_exp_p5);
-    y = _mm256_mul_pd(y, z);
-    y = _mm256_add_pd(y, x);
+
+    v4df q = _pd256d_cephes_exp_q0;
+    q = _mm256_mul_pd(q, z);
+    q = _mm256_add_pd(q, _pd256d_cephes_exp_q1);
+    q = _mm256_mul_pd(q, z);
+    q = _mm256_add_pd(q, _pd256d_cephes_exp_q2);
+    q = _mm256_mul_pd(q, z);
+    q = _mm256_add_pd(q, _pd256d_cephes_exp_q3);
+    y = _mm256_div_pd(y, _mm256_sub_pd(q, y));
+    y = _mm256_add_pd(y, y);
     y = _mm256_add_pd(y, one);
 
     /* build 2^n */
     imm0 = double_to_int64(fx);
     // another two AVX2 instructions
     // TJD: 127 << 23
-    imm0 = _mm256_add_epi64(imm0, _pi32_256d_0x7f);
+    imm0 = _mm256_add_epi64(imm0, _pi32_256d_0x3ff);
     imm0 = _mm256_slli_epi64(imm0, 52); // 23);
     v4df pow2n = _mm256_castsi256_pd(imm0);
     y = _mm256_mul_pd(y, pow2n);
-- 
2.43.0


From a4253dfedb892f60559052d0e3a0401155b4765d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:42 +0000
Subject: [PATCH 14/68] fix: sin and cos of doubles use double precision
 coefficients and truncate the octant

---
 src/atop/avx_mathfun.h | 69 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 56 insertions(+), 13 deletions(-)

diff --git a/src/atop/avx_mathfun.h b/src/atop/avx_mathfun.h
index 248a07d..2a11bde 100644
--- a/src/atop/avx_mathfun.h
+++ b/src/atop/avx_mathfun.h
@@ -483,16 +483,23 @@ FORCE_INLINE static v4df exp256_pd(v4df x) {
 // Sin function
 //
 
-_PS256d_CONST(minus_cephes_DP1, -0.78515625);
-_PS256d_CONST(minus_cephes_DP2, -2.4187564849853515625e-4);
-_PS256d_CONST(minus_cephes_DP3, -3.77489497744594108e-8);
-_PS256d_CONST(sincof_p0, -1.9515295891E-4);
-_PS256d_CONST(sincof_p1, 8.3321608736E-3);
-_PS256d_CONST(sincof_p2, -1.6666654611E-1);
-_PS256d_CONST(coscof_p0, 2.443315711809948E-005);
-_PS256d_CONST(coscof_p1, -1.388731625493765E-003);
-_PS256d_CONST(coscof_p2, 4.166664568298827E-002);
-_PS256d_CONST(cephes_FOPI, 1.27323954473516); // 4 / M_PI
+// coefficients of cephes sin() and cos(), the float version needs fewer terms
+_PS256d_CONST(minus_cephes_DP1, -7.85398125648498535156E-1);
+_PS256d_CONST(minus_cephes_DP2, -3.77489470793079817668E-8);
+_PS256d_CONST(minus_cephes_DP3, -2.69515142907905952645E-15);
+_PS256d_CONST(sincof_p0, 1.58962301576546568060E-10);
+_PS256d_CONST(sincof_p1, -2.50507477628578072866E-8);
+_PS256d_CONST(sincof_p2, 2.75573136213857245213E-6);
+_PS256d_CONST(sincof_p3, -1.98412698295895385996E-4);
+_PS256d_CONST(sincof_p4, 8.33333333332211858878E-3);
+_PS256d_CONST(sincof_p5, -1.66666666666666307295E-1);
+_PS256d_CONST(coscof_p0, -1.13585365213876817300E-11);
+_PS256d_CONST(coscof_p1, 2.08757008419747316778E-9);
+_PS256d_CONST(coscof_p2, -2.75573141792967388112E-7);
+_PS256d_CONST(coscof_p3, 2.48015872888517045348E-5);
+_PS256d_CONST(coscof_p4, -1.38888888888730564116E-3);
+_PS256d_CONST(coscof_p5, 4.16666666666665929218E-2);
+_PS256d_CONST(cephes_FOPI, 1.27323954473516268615); // 4 / M_PI
 
 _PS256_CONST(minus_cephes_DP1, -0.78515625f);
 _PS256_CONST(minus_cephes_DP2, -2.4187564849853515625e-4f);
@@ -812,7 +819,7 @@ FORCE_INLINE static v4df sin256_pd(v4df x) { // any x
     */
 
     /* store the integer part of y in mm0 */
-    imm2 = double_to_int64(y);
+    imm2 = double_to_int64(_mm256_floor_pd(y));
     /* j=(j+1) & (~1) (see the cephes sources) */
     // another two AVX2 instruction
     imm2 = _mm256_add_epi64(imm2, _pi32_256d_1);
@@ -860,6 +867,12 @@ FORCE_INLINE static v4df sin256_pd(v4df x) { // any x
     y = _mm256_mul_pd(y, z);
     y = _mm256_add_pd(y, _pd256d_coscof_p2);
     y = _mm256_mul_pd(y, z);
+    y = _mm256_add_pd(y, _pd256d_coscof_p3);
+    y = _mm256_mul_pd(y, z);
+    y = _mm256_add_pd(y, _pd256d_coscof_p4);
+    y = _mm256_mul_pd(y, z);
+    y = _mm256_add_pd(y, _pd256d_coscof_p5);
+    y = _mm256_mul_pd(y, z);
     y = _mm256_mul_pd(y, z);
     v4df tmp = _mm256_mul_pd(z, _pd256d_0p5);
     y = _mm256_sub_pd(y, tmp);
@@ -873,6 +886,12 @@ FORCE_INLINE static v4df sin256_pd(v4df x) { // any x
     y2 = _mm256_mul_pd(y2, z);
     y2 = _mm256_add_pd(y2, _pd256d_sincof_p2);
     y2 = _mm256_mul_pd(y2, z);
+    y2 = _mm256_add_pd(y2, _pd256d_sincof_p3);
+    y2 = _mm256_mul_pd(y2, z);
+    y2 = _mm256_add_pd(y2, _pd256d_sincof_p4);
+    y2 = _mm256_mul_pd(y2, z);
+    y2 = _mm256_add_pd(y2, _pd256d_sincof_p5);
+    y2 = _mm256_mul_pd(y2, z);
     y2 = _mm256_mul_pd(y2, x);
     y2 = _mm256_add_pd(y2, x);
 
@@ -899,7 +918,7 @@ FORCE_INLINE static v4df cos256_pd(v4df x) { // any x
     y = _mm256_mul_pd(x, _pd256d_cephes_FOPI);
 
     /* store the integer part of y in mm0 */
-    imm2 = double_to_int64(y);
+    imm2 = double_to_int64(_mm256_floor_pd(y));
     /* j=(j+1) & (~1) (see the cephes sources) */
     imm2 = _mm256_add_epi64(imm2, _pi32_256d_1);
     imm2 = _mm256_and_si256(imm2, _pi32_256d_inv1);
@@ -937,6 +956,12 @@ FORCE_INLINE static v4df cos256_pd(v4df x) { // any x
     y = _mm256_mul_pd(y, z);
     y = _mm256_add_pd(y, _pd256d_coscof_p2);
     y = _mm256_mul_pd(y, z);
+    y = _mm256_add_pd(y, _pd256d_coscof_p3);
+    y = _mm256_mul_pd(y, z);
+    y = _mm256_add_pd(y, _pd256d_coscof_p4);
+    y = _mm256_mul_pd(y, z);
+    y = _mm256_add_pd(y, _pd256d_coscof_p5);
+    y = _mm256_mul_pd(y, z);
     y = _mm256_mul_pd(y, z);
     v4df tmp = _mm256_mul_pd(z, _pd256d_0p5);
     y = _mm256_sub_pd(y, tmp);
@@ -950,6 +975,12 @@ FORCE_INLINE static v4df cos256_pd(v4df x) { // any x
     y2 = _mm256_mul_pd(y2, z);
     y2 = _mm256_add_pd(y2, _pd256d_sincof_p2);
     y2 = _mm256_mul_pd(y2, z);
+    y2 = _mm256_add_pd(y2, _pd256d_sincof_p3);
+    y2 = _mm256_mul_pd(y2, z);
+    y2 = _mm256_add_pd(y2, _pd256d_sincof_p4);
+    y2 = _mm256_mul_pd(y2, z);
+    y2 = _mm256_add_pd(y2, _pd256d_sincof_p5);
+    y2 = _mm256_mul_pd(y2, z);
     y2 = _mm256_mul_pd(y2, x);
     y2 = _mm256_add_pd(y2, x);
 
@@ -981,7 +1012,7 @@ FORCE_INLINE static void sincos256_pd(v4df x, v4df* s, v4df* c) {
     y = _mm256_mul_pd(x, _pd256d_cephes_FOPI);
 
     /* store the integer part of y in imm2 */
-    imm2 = double_to_int64(y);
+    imm2 = double_to_int64(_mm256_floor_pd(y));
 
     /* j=(j+1) & (~1) (see the cephes sources) */
     imm2 = _mm256_add_epi64(imm2, _pi32_256d_1);
@@ -1032,6 +1063,12 @@ FORCE_INLINE static void sincos256_pd(v4df x, v4df* s, v4df* c) {
     y = _mm256_mul_pd(y, z);
     y = _mm256_add_pd(y, _pd256d_coscof_p2);
     y = _mm256_mul_pd(y, z);
+    y = _mm256_add_pd(y, _pd256d_coscof_p3);
+    y = _mm256_mul_pd(y, z);
+    y = _mm256_add_pd(y, _pd256d_coscof_p4);
+    y = _mm256_mul_pd(y, z);
+    y = _mm256_add_pd(y, _pd256d_coscof_p5);
+    y = _mm256_mul_pd(y, z);
     y = _mm256_mul_pd(y, z);
     v4df tmp = _mm256_mul_pd(z, _pd256d_0p5);
     y = _mm256_sub_pd(y, tmp);
@@ -1045,6 +1082,12 @@ FORCE_INLINE static void sincos256_pd(v4df x, v4df* s, v4df* c) {
     y2 = _mm256_mul_pd(y2, z);
     y2 = _mm256_add_pd(y2, _pd256d_sincof_p2);
     y2 = _mm256_mul_pd(y2, z);
+    y2 = _mm256_add_pd(y2, _pd256d_sincof_p3);
+    y2 = _mm256_mul_pd(y2, z);
+    y2 = _mm256_add_pd(y2, _pd256d_sincof_p4);
+    y2 = _mm256_mul_pd(y2, z);
+    y2 = _mm256_add_pd(y2, _pd256d_sincof_p5);
+    y2 = _mm256_mul_pd(y2, z);
     y2 = _mm256_mul_pd(y2, x);
     y2 = _mm256_add_pd(y2, x);
 
-- 
2.43.0


From d54ddfd9d4f589e4f6cafaa32ac4a9fd51bca188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:45 +0000
Subject: [PATCH 15/68] fix: sort the buffer numpy passes instead of the memory
 of the array

numpy hands the sort function an aligned, native order buffer to sort in
place.  When that buffer is not the memory of the array (misaligned or byte
swapped data) the hook sorted a raw copy of the array instead, read with the
stride of a dimension that does not exist.
---
 src/pnumpy/_pnumpy.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pnumpy/_pnumpy.cpp b/src/pnumpy/_pnumpy.cpp
index 4664e6f..95b30eb 100644
--- a/src/pnumpy/_pnumpy.cpp
+++ b/src/pnumpy/_pnumpy.cpp
@@ -1095,7 +1095,7 @@ static int AtopSortMathFunction(void* pDest, npy_intp length, void* pArrayObject
                         if (PyArray_ITEMSIZE(pSrcObject) == itemsize && PyArray_STRIDE(pSrcObject, 0) == itemsize) {
                             SORT_MODE sortmode = (SORT_MODE)sortkind;
                             int result =
-                                Sort(sortmode, atype, PyArray_BYTES(pSrcObject), ArrayLength(pSrcObject), PyArray_STRIDE(pSrcObject, 1), PyArray_ITEMSIZE(pSrcObject), pDest, PyArray_ITEMSIZE(pSrcObject));
+                                Sort(sortmode, atype, pDest, length, itemsize, itemsize, pDest, itemsize);
 
                             LOGGING("result is %d  %d   len: %lld\n", result, atype, length);
                             if (result >= 0)
-- 
2.43.0


From 1ca9d2544a999ce331ff22c26ec72f5a6c148499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:45 +0000
Subject: [PATCH 16/68] fix: indirect merge sort keeps nans last

One of the merges compared with < which does not order nans.
---
 src/atop/sort.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/atop/sort.cpp b/src/atop/sort.cpp
index 4f7416c..dd2fdc5 100644
--- a/src/atop/sort.cpp
+++ b/src/atop/sort.cpp
@@ -1162,7 +1162,7 @@ amergesort0_(UINDEX* pl, UINDEX* pr, const T* v, UINDEX* pw)
         // moving from workspace into left
 
         while (pw < pwEnd && pm < pr) {
-            if (v[*pm] < v[*pw]) {
+            if (COMPARE_LT(v[*pm], v[*pw])) {
                 *pl++ = *pm++;
             }
             else {
-- 
2.43.0


From 9eabada0e5326df7f630902e792ca83c53abf892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:45 +0000
Subject: [PATCH 17/68] fix: sort with axis=None returned the flattened array
 unsorted

The parallel sort was attempted on a copy which was then dropped.
---
 src/pnumpy/sort.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/pnumpy/sort.py b/src/pnumpy/sort.py
index 7906b55..aa7aa73 100644
--- a/src/pnumpy/sort.py
+++ b/src/pnumpy/sort.py
@@ -198,12 +198,6 @@ def sort(a, axis=-1, kind=None, order=None):
         # flatten returns (1, N) for np.matrix, so always use the last axis
         a = asanyarray(a).flatten()
         axis = -1
-        try:
-            # attempt a parallel sort
-            sort(a, kind=kind)
-            return a
-        except Exception:
-            pass
     else:
         a = asanyarray(a).copy(order="K")
 
-- 
2.43.0


From 8f37521377b843c38fd7c8b676c7e8c4dfd026fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:45 +0000
Subject: [PATCH 18/68] fix: _wrapit used an undefined name

---
 src/pnumpy/sort.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pnumpy/sort.py b/src/pnumpy/sort.py
index aa7aa73..d25d47d 100644
--- a/src/pnumpy/sort.py
+++ b/src/pnumpy/sort.py
@@ -21,7 +21,7 @@ def _wrapit(obj, method, *args, **kwds):
         wrap = None
     result = getattr(asarray(obj), method)(*args, **kwds)
     if wrap:
-        if not isinstance(result, mu.ndarray):
+        if not isinstance(result, np.ndarray):
             result = asarray(result)
         result = wrap(result)
     return result
-- 
2.43.0


From b5595932a772539e1a89bb7c293f07e6b5273222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:11 +0000
Subject: [PATCH 19/68] fix: parallel argsort of strings skipped merges that
 were needed

The check for already sorted halves compared with the item before the first
item of the right half, not with the last item of the left half.
---
 src/atop/sort.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/atop/sort.cpp b/src/atop/sort.cpp
index dd2fdc5..88c5e14 100644
--- a/src/atop/sort.cpp
+++ b/src/atop/sort.cpp
@@ -1288,7 +1288,7 @@ ParMergeMergeString(void* pValue1, void* pToSort1, int64_t totalLen, int64_t str
 
     PLOGGING("Comparing %s to %s  ALSO %s\n", pValue + (*pm) * strlen, pValue + (*pm - 1) * strlen, pValue + (*pm + 1) * strlen);
 
-    if ( STRING_LT((DATATYPE)(pValue + (*pm) * strlen), (DATATYPE)(pValue + (*pm - 1) * strlen), strlen)) {
+    if ( STRING_LT((DATATYPE)(pValue + (*pm) * strlen), (DATATYPE)(pValue + (*(pm - 1)) * strlen), strlen)) {
 
         // copy the left to workspace
         MEMCPYR(pWorkSpace, pl, (pm - pl) * sizeof(UINDEX));
-- 
2.43.0


From c5920661688f08d0590df8e4fb85e6efc7563d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:11 +0000
Subject: [PATCH 20/68] fix: accept arrays of zero or one element whatever
 their stride

---
 src/pnumpy/common.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pnumpy/common.cpp b/src/pnumpy/common.cpp
index 8cb9acb..a214777 100644
--- a/src/pnumpy/common.cpp
+++ b/src/pnumpy/common.cpp
@@ -711,7 +711,7 @@ ArrayInfo* BuildArrayInfo(
                         PyErr_Format(PyExc_ValueError, "BuildArrayInfo array must have ndim ==1 instead of %d", aInfo[i].NDim);
                         goto EXIT_ROUTINE;
                     }
-                    if (itemSize != stride0) {
+                    if (itemSize != stride0 && aInfo[i].ArrayLength > 1) {
                         PyErr_Format(PyExc_ValueError, "BuildArrayInfo array strides must match itemsize -- %lld %lld", itemSize, stride0);
                         goto EXIT_ROUTINE;
                     }
-- 
2.43.0


From 878a723c795c63356499a18ba30932b2b87dc337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:11 +0000
Subject: [PATCH 21/68] fix: lexsort raises when it cannot sort

It returned None with an error set (a SystemError for the caller), or None
without an error when there was no array at all, which pnumpy.lexsort then
took for the result.
---
 src/pnumpy/sorting.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pnumpy/sorting.cpp b/src/pnumpy/sorting.cpp
index ddee8af..f66e0c8 100644
--- a/src/pnumpy/sorting.cpp
+++ b/src/pnumpy/sorting.cpp
@@ -372,7 +372,7 @@ template<typename UINDEX>
 PyObject* lexsort(PyObject* self, PyObject* args, PyObject* kwargs) {
     CMultiListPrepare mlp(args);
 
-    if (mlp.aInfo && mlp.tupleSize > 0) {
+    if (mlp.aInfo && mlp.tupleSize > 0 && !PyErr_Occurred()) {
         int64_t    arraySize1 = mlp.totalRows;
 
         int64_t    cutOffLength = 0;
@@ -484,8 +484,10 @@ PyObject* lexsort(PyObject* self, PyObject* args, PyObject* kwargs) {
         }
     }
 
-    Py_INCREF(Py_None);
-    return Py_None;
+    if (!PyErr_Occurred()) {
+        PyErr_Format(PyExc_ValueError, "LexSort needs at least one array");
+    }
+    return NULL;
 }
 
 
-- 
2.43.0


From 2c0355f6c5bc118332a7c79dae59e0e5b6f1be1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:11 +0000
Subject: [PATCH 22/68] fix: lexsort of byte swapped arrays and of None

Byte swapped values were compared as if they were native, None crashed.
---
 src/pnumpy/sorting.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pnumpy/sorting.cpp b/src/pnumpy/sorting.cpp
index f66e0c8..475865a 100644
--- a/src/pnumpy/sorting.cpp
+++ b/src/pnumpy/sorting.cpp
@@ -390,6 +390,14 @@ PyObject* lexsort(PyObject* self, PyObject* args, PyObject* kwargs) {
 
         // Check types that we can sort
         for (UINDEX i = 0; i < mlp.tupleSize; i++) {
+            if (mlp.aInfo[i].pObject == NULL) {
+                PyErr_Format(PyExc_ValueError, "LexSort cannot handle None");
+                return NULL;
+            }
+            if (PyArray_ISBYTESWAPPED(mlp.aInfo[i].pObject)) {
+                PyErr_Format(PyExc_ValueError, "LexSort cannot handle byte swapped arrays");
+                return NULL;
+            }
             int dtype = mlp.aInfo[i].NumpyDType;
             int atype = dtype_to_atop(dtype);
             if (atype == -1 || (atype > ATOP_LONGDOUBLE && (atype != ATOP_STRING && atype != ATOP_UNICODE))) {
-- 
2.43.0


From 00711d56a49e36d8756ddb3c26c9083b4db92d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:29 +0000
Subject: [PATCH 23/68] fix: lexsort checks the cutoffs before using them

Empty, decreasing or non contiguous cutoffs made it read and write outside of
the arrays.
---
 src/pnumpy/sorting.cpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/pnumpy/sorting.cpp b/src/pnumpy/sorting.cpp
index 475865a..657a171 100644
--- a/src/pnumpy/sorting.cpp
+++ b/src/pnumpy/sorting.cpp
@@ -187,6 +187,11 @@ int64_t* GetCutOffs(PyObject* kwargs, int64_t& cutoffLength) {
     pCutOffs = (PyArrayObject*)GetKwarg(pPyArray_Type, kwargs, "cutoffs");
 
     if (pCutOffs != NULL) {
+        // The values are read directly
+        if (!PyArray_ISCARRAY_RO(pCutOffs)) {
+            cutoffLength = -1;
+            return NULL;
+        }
         switch (PyArray_TYPE(pCutOffs)) {
         CASE_NPY_INT64:
             cutoffLength = ArrayLength(pCutOffs);
@@ -379,14 +384,22 @@ PyObject* lexsort(PyObject* self, PyObject* args, PyObject* kwargs) {
         int64_t* pCutOffs = GetCutOffs(kwargs, cutOffLength);
         SORT_MODE sortmode = (SORT_MODE)GetKind(kwargs, SORT_MODE_MERGE);
 
-        if (pCutOffs && pCutOffs[cutOffLength - 1] != arraySize1) {
-            PyErr_Format(PyExc_ValueError, "LexSort last cutoff length does not match array length %lld", arraySize1);
-            return NULL;
-        }
         if (cutOffLength == -1) {
             PyErr_Format(PyExc_ValueError, "LexSort 'cutoffs' must be an array of type int64_t");
             return NULL;
         }
+        if (pCutOffs) {
+            if (cutOffLength == 0 || pCutOffs[cutOffLength - 1] != arraySize1) {
+                PyErr_Format(PyExc_ValueError, "LexSort last cutoff length does not match array length %lld", arraySize1);
+                return NULL;
+            }
+            for (int64_t i = 0; i < cutOffLength; i++) {
+                if (pCutOffs[i] < (i ? pCutOffs[i - 1] : 0)) {
+                    PyErr_Format(PyExc_ValueError, "LexSort 'cutoffs' must not decrease");
+                    return NULL;
+                }
+            }
+        }
 
         // Check types that we can sort
         for (UINDEX i = 0; i < mlp.tupleSize; i++) {
-- 
2.43.0


From 5eb4aeaccd79f1cc120b175b16a19369bb4d51f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:29 +0000
Subject: [PATCH 24/68] fix: lexsort checks the index before using it

Values out of range were used to read the arrays, a non contiguous index was
written as if it were contiguous, and cutoffs wrote past a shorter index.
---
 src/pnumpy/sorting.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/pnumpy/sorting.cpp b/src/pnumpy/sorting.cpp
index 657a171..a7d5b92 100644
--- a/src/pnumpy/sorting.cpp
+++ b/src/pnumpy/sorting.cpp
@@ -260,6 +260,12 @@ static PyArrayObject* GetKwargIndex(PyObject* kwargs, int64_t& indexLength, int&
         if (pStartIndex != NULL && PyArray_Check(pStartIndex)) {
             indexLength = ArrayLength(pStartIndex);
 
+            // The values are sorted in place
+            if (!PyArray_ISCARRAY(pStartIndex)) {
+                indexLength = -1;
+                return NULL;
+            }
+
             switch (PyArray_TYPE(pStartIndex)) {
             CASE_NPY_INT64:
                 dtype = NPY_INT64;
@@ -448,6 +454,19 @@ PyObject* lexsort(PyObject* self, PyObject* args, PyObject* kwargs) {
                 return NULL;
             }
 
+            if (pCutOffs && indexLength != arraySize1) {
+                PyErr_Format(PyExc_ValueError, "LexSort 'index' with 'cutoffs' must have the length of the value array");
+                return NULL;
+            }
+
+            UINDEX* pIndex = (UINDEX*)PyArray_BYTES(index);
+            for (int64_t i = 0; i < indexLength; i++) {
+                if (pIndex[i] < 0 || pIndex[i] >= arraySize1) {
+                    PyErr_Format(PyExc_ValueError, "LexSort 'index' has a value out of range");
+                    return NULL;
+                }
+            }
+
             // reduce what we sort to the startindex
             arraySize1 = indexLength;
             result = index;
-- 
2.43.0


From 88766c5a684a47d938387edfd736f712dd9e1e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:02 +0000
Subject: [PATCH 25/68] fix: lexsort of float16

There is no indirect sort of float16, the key was silently ignored.
---
 src/pnumpy/sorting.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pnumpy/sorting.cpp b/src/pnumpy/sorting.cpp
index a7d5b92..c3c7002 100644
--- a/src/pnumpy/sorting.cpp
+++ b/src/pnumpy/sorting.cpp
@@ -419,7 +419,7 @@ PyObject* lexsort(PyObject* self, PyObject* args, PyObject* kwargs) {
             }
             int dtype = mlp.aInfo[i].NumpyDType;
             int atype = dtype_to_atop(dtype);
-            if (atype == -1 || (atype > ATOP_LONGDOUBLE && (atype != ATOP_STRING && atype != ATOP_UNICODE))) {
+            if (atype == -1 || atype == ATOP_HALF_FLOAT || (atype > ATOP_LONGDOUBLE && (atype != ATOP_STRING && atype != ATOP_UNICODE))) {
                 PyErr_Format(PyExc_ValueError, "LexSort cannot handle type %d\n",dtype);
                 return NULL;
             }
-- 
2.43.0


From 314524d32b3925e68cf212ea62416606a1f0a5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:27 +0000
Subject: [PATCH 26/68] fix: recarray_to_colmajor used an undefined name

Every conversion of a record array raised a NameError.
---
 src/pnumpy/recarray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pnumpy/recarray.py b/src/pnumpy/recarray.py
index e18c49b..53e9829 100644
--- a/src/pnumpy/recarray.py
+++ b/src/pnumpy/recarray.py
@@ -36,7 +36,7 @@ def recarray_to_colmajor(item, parallel=True):
                 break;
 
         d={}
-        if successs and parallel:
+        if success and parallel:
             offsets=[]
             arrays=np.empty(len(item.dtype.fields), dtype='O')
             arrlen = len(item)
-- 
2.43.0


From e292b9b07215bf8d2f851274cde79c477029f165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:27 +0000
Subject: [PATCH 27/68] fix: recarray_to_colmajor of strided, multi dimensional
 and empty records

The parallel routine wrote past the columns of a multi dimensional array,
divided by a zero record size and refused strides, use the plain copy there.
---
 src/pnumpy/recarray.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pnumpy/recarray.py b/src/pnumpy/recarray.py
index 53e9829..35ea604 100644
--- a/src/pnumpy/recarray.py
+++ b/src/pnumpy/recarray.py
@@ -27,7 +27,8 @@ def recarray_to_colmajor(item, parallel=True):
         # warnings.warn(f"Converting numpy record array. Performance may suffer.")
         # flip row-major to column-major
         list_types = [*item.dtype.fields.values()]
-        success = True
+        # the parallel routine walks one dimension of adjacent records
+        success = item.ndim == 1 and item.flags.c_contiguous and item.itemsize > 0
         for t in list_types:
             val = t[0].char
             # if the record type has an object or another record type, we cannot handle
-- 
2.43.0


From 1d9ba87d1a113c0104dd2cfc479ba92cc23060d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:27 +0000
Subject: [PATCH 28/68] fix: recarray_to_colmajor returns one column per field
 name

dtype.fields also holds the titles, which gave extra columns and another
order, and is None for an unstructured void.
---
 src/pnumpy/recarray.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pnumpy/recarray.py b/src/pnumpy/recarray.py
index 35ea604..4c3d268 100644
--- a/src/pnumpy/recarray.py
+++ b/src/pnumpy/recarray.py
@@ -23,10 +23,10 @@ def recarray_to_colmajor(item, parallel=True):
     >>> item=np.tile(x,100_000)
     >>> mydict = recarray_to_colmajor(item)
     """
-    if item.dtype.char == 'V':
+    if item.dtype.names is not None:
         # warnings.warn(f"Converting numpy record array. Performance may suffer.")
         # flip row-major to column-major
-        list_types = [*item.dtype.fields.values()]
+        list_types = [item.dtype.fields[name] for name in item.dtype.names]
         # the parallel routine walks one dimension of adjacent records
         success = item.ndim == 1 and item.flags.c_contiguous and item.itemsize > 0
         for t in list_types:
@@ -39,10 +39,11 @@ def recarray_to_colmajor(item, parallel=True):
         d={}
         if success and parallel:
             offsets=[]
-            arrays=np.empty(len(item.dtype.fields), dtype='O')
+            arrays=np.empty(len(item.dtype.names), dtype='O')
             arrlen = len(item)
             count =0
-            for name, v in item.dtype.fields.items():
+            for name in item.dtype.names:
+                v = item.dtype.fields[name]
                 offsets.append(v[1])
                 arr= np.empty(arrlen, dtype=v[0])
                 arrays[count] = arr
-- 
2.43.0


From 5dd383e2e9a5828bfb89913673b0913a8943dbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:45 +0000
Subject: [PATCH 29/68] fix: recarray_to_colmajor of a single record with
 another stride

---
 src/pnumpy/recarray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pnumpy/recarray.py b/src/pnumpy/recarray.py
index 4c3d268..8950790 100644
--- a/src/pnumpy/recarray.py
+++ b/src/pnumpy/recarray.py
@@ -28,7 +28,7 @@ def recarray_to_colmajor(item, parallel=True):
         # flip row-major to column-major
         list_types = [item.dtype.fields[name] for name in item.dtype.names]
         # the parallel routine walks one dimension of adjacent records
-        success = item.ndim == 1 and item.flags.c_contiguous and item.itemsize > 0
+        success = item.strides == (item.itemsize,) and item.itemsize > 0
         for t in list_types:
             val = t[0].char
             # if the record type has an object or another record type, we cannot handle
-- 
2.43.0


From 48e526156b5e1eb3f909450c6567e816e7f3e1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:36 +0000
Subject: [PATCH 30/68] fix: recarray_to_colmajor of a field without bytes

---
 src/pnumpy/recarray.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pnumpy/recarray.py b/src/pnumpy/recarray.py
index 8950790..6636864 100644
--- a/src/pnumpy/recarray.py
+++ b/src/pnumpy/recarray.py
@@ -32,7 +32,8 @@ def recarray_to_colmajor(item, parallel=True):
         for t in list_types:
             val = t[0].char
             # if the record type has an object or another record type, we cannot handle
-            if val == 'O' or val =='V':
+            # and a field without bytes would get an array with one byte per record
+            if val == 'O' or val =='V' or t[0].itemsize == 0:
                 success = False
                 break;
 
-- 
2.43.0


From a376f4ad91f4b4326378df034d390ad3c9060bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:43 +0000
Subject: [PATCH 31/68] fix: lexsort of a 0-d array read strides that do not
 exist

---
 src/pnumpy/common.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pnumpy/common.cpp b/src/pnumpy/common.cpp
index a214777..06c584e 100644
--- a/src/pnumpy/common.cpp
+++ b/src/pnumpy/common.cpp
@@ -703,8 +703,9 @@ ArrayInfo* BuildArrayInfo(
                 //    goto EXIT_ROUTINE;
                 //}
 
-                int64_t stride0 = PyArray_STRIDE((PyArrayObject*)inObject, 0);
                 int64_t itemSize = aInfo[i].ItemSize;
+                // a 0-d array has no strides
+                int64_t stride0 = aInfo[i].NDim > 0 ? PyArray_STRIDE((PyArrayObject*)inObject, 0) : itemSize;
 
                 if (checkrows) {
                     if (aInfo[i].NDim != 1) {
-- 
2.43.0


From 9d633ffc6e8604b8a367bc52492bd9bacd7321ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:39 +0000
Subject: [PATCH 32/68] fix: boolean getitem of strided values wrote its tail
 with the stride of the input

---
 src/pnumpy/getitem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pnumpy/getitem.cpp b/src/pnumpy/getitem.cpp
index b708352..a37b4a8 100644
--- a/src/pnumpy/getitem.cpp
+++ b/src/pnumpy/getitem.cpp
@@ -475,7 +475,7 @@ BooleanIndexInternal(
                         for (int64_t i = 0; i < blength; i++) {
                             if (*pBooleanMask++) {
                                 memcpy(pValuesOut, pValuesIn, itemSize);
-                                pValuesOut += strideValues;
+                                pValuesOut += itemSize;
                             }
                             pValuesIn += strideValues;
                         }
-- 
2.43.0


From 3bdaebf5988dbb522517cd6cfb6acf75a4c423e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:39 +0000
Subject: [PATCH 33/68] fix: threaded getitem of strided values used the stride
 of the input for the output

---
 src/pnumpy/getitem.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pnumpy/getitem.cpp b/src/pnumpy/getitem.cpp
index a37b4a8..ab6933b 100644
--- a/src/pnumpy/getitem.cpp
+++ b/src/pnumpy/getitem.cpp
@@ -906,7 +906,8 @@ static int64_t GetItemCallback(struct stMATH_WORKER_ITEM* pstWorkerItem, int cor
         // Calculate how much to adjust the pointers to get to the data for this work block
         int64_t blockStart = workBlock * pstWorkerItem->BlockSize;
 
-        int64_t valueAdj = blockStart * strideValue;
+        // the output is contiguous
+        int64_t valueAdj = blockStart * valueItemSize;
         int64_t indexAdj = blockStart * strideIndex;
 
         LOGGING("%d : workBlock %lld   blocksize: %lld    lenx: %lld  %lld  %lld  %lld %lld\n", core, workBlock, pstWorkerItem->BlockSize, lenX, typeSizeValues, typeSizeIndex, valueAdj, indexAdj);
-- 
2.43.0


From 914656d1e3ff221207ada6cca56694c5d210f304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:39 +0000
Subject: [PATCH 34/68] fix: getitem read unsigned indexes as signed

---
 src/pnumpy/getitem.cpp | 56 +++++++++++++++++++++---------------------
 1 file changed, 28 insertions(+), 28 deletions(-)

diff --git a/src/pnumpy/getitem.cpp b/src/pnumpy/getitem.cpp
index ab6933b..cc4ca8d 100644
--- a/src/pnumpy/getitem.cpp
+++ b/src/pnumpy/getitem.cpp
@@ -690,7 +690,7 @@ static void GetItemUInt(void* aValues, void* aIndex, void* aDataOut, int64_t val
 
             *pDataOut =
                 // Make sure the item is in range
-                index < valLength
+                (uint64_t)index < (uint64_t)valLength
                 ? pValues[index]
                 : defaultVal;
             pIndex++;
@@ -704,7 +704,7 @@ static void GetItemUInt(void* aValues, void* aIndex, void* aDataOut, int64_t val
             const INDEX index = *pIndex;
             // Make sure the item is in range; if the index is negative -- but otherwise
             // still in range -- mimic Python's negative-indexing support.
-            if (index < valLength) {
+            if ((uint64_t)index < (uint64_t)valLength) {
                 *pDataOut = *(VALUE*)((char*)pValues + (strideValue * index));
             }
             else {
@@ -806,7 +806,7 @@ static void GetItemUIntVariable(void* aValues, void* aIndex, void* aDataOut, int
         while (pDataOut != pDataOutEnd) {
             const INDEX index = *pIndex;
             const char* pSrc;
-            if (index < valLength) {
+            if ((uint64_t)index < (uint64_t)valLength) {
                 pSrc = pValues + (itemSize * index);
             }
             else {
@@ -834,7 +834,7 @@ static void GetItemUIntVariable(void* aValues, void* aIndex, void* aDataOut, int
         while (pDataOut != pDataOutEnd) {
             const INDEX index = *pIndex;
             const char* pSrc;
-            if (index < valLength) {
+            if ((uint64_t)index < (uint64_t)valLength) {
                 pSrc = pValues + (strideValue * index);
             }
             else {
@@ -944,12 +944,12 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         break;
     case NPY_UINT8:
         switch (itemSize) {
-        case 1:  return GetItemUInt<int8_t, int8_t>;
-        case 2:  return GetItemUInt<int16_t, int8_t>;
-        case 4:  return GetItemUInt<int32_t, int8_t>;
-        case 8:  return GetItemUInt<int64_t, int8_t>;
-        case 16:  return GetItemUInt<__m128, int8_t>;
-        default: return GetItemUIntVariable<int8_t>;
+        case 1:  return GetItemUInt<int8_t, uint8_t>;
+        case 2:  return GetItemUInt<int16_t, uint8_t>;
+        case 4:  return GetItemUInt<int32_t, uint8_t>;
+        case 8:  return GetItemUInt<int64_t, uint8_t>;
+        case 16:  return GetItemUInt<__m128, uint8_t>;
+        default: return GetItemUIntVariable<uint8_t>;
         }
         break;
 
@@ -965,12 +965,12 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         break;
     case NPY_UINT16:
         switch (itemSize) {
-        case 1:  return GetItemUInt<int8_t, int16_t>;
-        case 2:  return GetItemUInt<int16_t, int16_t>;
-        case 4:  return GetItemUInt<int32_t, int16_t>;
-        case 8:  return GetItemUInt<int64_t, int16_t>;
-        case 16:  return GetItemUInt<__m128, int16_t>;
-        default: return GetItemUIntVariable<int16_t>;
+        case 1:  return GetItemUInt<int8_t, uint16_t>;
+        case 2:  return GetItemUInt<int16_t, uint16_t>;
+        case 4:  return GetItemUInt<int32_t, uint16_t>;
+        case 8:  return GetItemUInt<int64_t, uint16_t>;
+        case 16:  return GetItemUInt<__m128, uint16_t>;
+        default: return GetItemUIntVariable<uint16_t>;
         }
         break;
 
@@ -986,12 +986,12 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         break;
     CASE_NPY_UINT32:
         switch (itemSize) {
-        case 1:  return GetItemUInt<int8_t, int32_t>;
-        case 2:  return GetItemUInt<int16_t, int32_t>;
-        case 4:  return GetItemUInt<int32_t, int32_t>;
-        case 8:  return GetItemUInt<int64_t, int32_t>;
-        case 16:  return GetItemUInt<__m128, int32_t>;
-        default: return GetItemUIntVariable<int32_t>;
+        case 1:  return GetItemUInt<int8_t, uint32_t>;
+        case 2:  return GetItemUInt<int16_t, uint32_t>;
+        case 4:  return GetItemUInt<int32_t, uint32_t>;
+        case 8:  return GetItemUInt<int64_t, uint32_t>;
+        case 16:  return GetItemUInt<__m128, uint32_t>;
+        default: return GetItemUIntVariable<uint32_t>;
         }
         break;
 
@@ -1007,12 +1007,12 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         break;
     CASE_NPY_UINT64:
         switch (itemSize) {
-        case 1:  return GetItemUInt<int8_t, int64_t>;
-        case 2:  return GetItemUInt<int16_t, int64_t>;
-        case 4:  return GetItemUInt<int32_t, int64_t>;
-        case 8:  return GetItemUInt<int64_t, int64_t>;
-        case 16:  return GetItemUInt<__m128, int64_t>;
-        default: return GetItemUIntVariable<int64_t>;
+        case 1:  return GetItemUInt<int8_t, uint64_t>;
+        case 2:  return GetItemUInt<int16_t, uint64_t>;
+        case 4:  return GetItemUInt<int32_t, uint64_t>;
+        case 8:  return GetItemUInt<int64_t, uint64_t>;
+        case 16:  return GetItemUInt<__m128, uint64_t>;
+        default: return GetItemUIntVariable<uint64_t>;
         }
         break;
     }
-- 
2.43.0


From a0aab5acdd19fe800c8edc963752826ba94adbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:39 +0000
Subject: [PATCH 35/68] fix: getitem with unsigned indexes advanced the output
 twice for every string

---
 src/pnumpy/getitem.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/pnumpy/getitem.cpp b/src/pnumpy/getitem.cpp
index cc4ca8d..2aa9a1f 100644
--- a/src/pnumpy/getitem.cpp
+++ b/src/pnumpy/getitem.cpp
@@ -826,7 +826,6 @@ static void GetItemUIntVariable(void* aValues, void* aIndex, void* aDataOut, int
             //    memcpy(pDataOut, pSrc, itemSize);
 
             pIndex++;
-            pDataOut += itemSize;
         }
     }
     else {
@@ -852,7 +851,6 @@ static void GetItemUIntVariable(void* aValues, void* aIndex, void* aDataOut, int
                 *pDataOut++ = *pSrc++;
             }
             pIndex = STRIDE_NEXT(const INDEX, pIndex, strideIndex);
-            pDataOut += itemSize;
         }
     }
 }
-- 
2.43.0


From a0ffcaed6a750f1a546a37c120b69e788cac8e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:39 +0000
Subject: [PATCH 36/68] fix: getitem of 16 byte items required aligned memory

---
 src/pnumpy/getitem.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/pnumpy/getitem.cpp b/src/pnumpy/getitem.cpp
index 2aa9a1f..df23118 100644
--- a/src/pnumpy/getitem.cpp
+++ b/src/pnumpy/getitem.cpp
@@ -873,6 +873,9 @@ struct MBGET_CALLBACK {
 
 } stMBGCallback;
 
+// 16 byte items have no alignment (strings)
+struct ITEM16 { int64_t low; int64_t high; };
+
 //---------------------------------------------------------
 // Used by GetItem
 //  Concurrent callback from multiple threads
@@ -936,7 +939,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         case 2:  return GetItemInt<int16_t, int8_t>;
         case 4:  return GetItemInt<int32_t, int8_t>;
         case 8:  return GetItemInt<int64_t, int8_t>;
-        case 16:  return GetItemInt<__m128, int8_t>;
+        case 16:  return GetItemInt<ITEM16, int8_t>;
         default: return GetItemIntVariable<int8_t>;
         }
         break;
@@ -946,7 +949,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         case 2:  return GetItemUInt<int16_t, uint8_t>;
         case 4:  return GetItemUInt<int32_t, uint8_t>;
         case 8:  return GetItemUInt<int64_t, uint8_t>;
-        case 16:  return GetItemUInt<__m128, uint8_t>;
+        case 16:  return GetItemUInt<ITEM16, uint8_t>;
         default: return GetItemUIntVariable<uint8_t>;
         }
         break;
@@ -957,7 +960,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         case 2:  return GetItemInt<int16_t, int16_t>;
         case 4:  return GetItemInt<int32_t, int16_t>;
         case 8:  return GetItemInt<int64_t, int16_t>;
-        case 16:  return GetItemInt<__m128, int16_t>;
+        case 16:  return GetItemInt<ITEM16, int16_t>;
         default: return GetItemIntVariable<int16_t>;
         }
         break;
@@ -967,7 +970,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         case 2:  return GetItemUInt<int16_t, uint16_t>;
         case 4:  return GetItemUInt<int32_t, uint16_t>;
         case 8:  return GetItemUInt<int64_t, uint16_t>;
-        case 16:  return GetItemUInt<__m128, uint16_t>;
+        case 16:  return GetItemUInt<ITEM16, uint16_t>;
         default: return GetItemUIntVariable<uint16_t>;
         }
         break;
@@ -978,7 +981,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         case 2:  return GetItemInt<int16_t, int32_t>;
         case 4:  return GetItemInt<int32_t, int32_t>;
         case 8:  return GetItemInt<int64_t, int32_t>;
-        case 16:  return GetItemInt<__m128, int32_t>;
+        case 16:  return GetItemInt<ITEM16, int32_t>;
         default: return GetItemIntVariable<int32_t>;
         }
         break;
@@ -988,7 +991,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         case 2:  return GetItemUInt<int16_t, uint32_t>;
         case 4:  return GetItemUInt<int32_t, uint32_t>;
         case 8:  return GetItemUInt<int64_t, uint32_t>;
-        case 16:  return GetItemUInt<__m128, uint32_t>;
+        case 16:  return GetItemUInt<ITEM16, uint32_t>;
         default: return GetItemUIntVariable<uint32_t>;
         }
         break;
@@ -999,7 +1002,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         case 2:  return GetItemInt<int16_t, int64_t>;
         case 4:  return GetItemInt<int32_t, int64_t>;
         case 8:  return GetItemInt<int64_t, int64_t>;
-        case 16:  return GetItemInt<__m128, int64_t>;
+        case 16:  return GetItemInt<ITEM16, int64_t>;
         default: return GetItemIntVariable<int64_t>;
         }
         break;
@@ -1009,7 +1012,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         case 2:  return GetItemUInt<int16_t, uint64_t>;
         case 4:  return GetItemUInt<int32_t, uint64_t>;
         case 8:  return GetItemUInt<int64_t, uint64_t>;
-        case 16:  return GetItemUInt<__m128, uint64_t>;
+        case 16:  return GetItemUInt<ITEM16, uint64_t>;
         default: return GetItemUIntVariable<uint64_t>;
         }
         break;
-- 
2.43.0


From 7097b6a1a35c3a3edddd54143f87d6b9e42fc46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:39 +0000
Subject: [PATCH 37/68] fix: getitem of multi dimensional arrays used the
 stride of the first dimension

---
 src/pnumpy/getitem.cpp | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/src/pnumpy/getitem.cpp b/src/pnumpy/getitem.cpp
index df23118..86caf51 100644
--- a/src/pnumpy/getitem.cpp
+++ b/src/pnumpy/getitem.cpp
@@ -199,7 +199,7 @@ int64_t BooleanCount(PyArrayObject* aIndex, int64_t** ppChunkCount) {
         BSCallbackStruct stBSCallback;
         stBSCallback.pChunkCount = pChunkCount;
         stBSCallback.pBooleanMask = pBooleanMask;
-        stBSCallback.strideBoolean = PyArray_STRIDE(aIndex, 0);
+        stBSCallback.strideBoolean = PyArray_NDIM(aIndex) == 1 ? PyArray_STRIDE(aIndex, 0) : 1;
 
         BOOL didMtWork = THREADER->DoMultiThreadedChunkWork(lengthBool, lambdaBSCallback, &stBSCallback);
 
@@ -564,8 +564,9 @@ BooleanIndexInternal(
             stBICallback.pValuesIn = (char*)PyArray_BYTES(aValues);
             stBICallback.pValuesOut = (char*)PyArray_BYTES(pReturnArray);
             stBICallback.itemSize = PyArray_ITEMSIZE(aValues);
-            stBICallback.strideBoolean = PyArray_STRIDE(aIndex, 0);
-            stBICallback.strideValues = PyArray_STRIDE(aValues, 0);
+            // more (or less) than one dimension is contiguous here
+            stBICallback.strideBoolean = PyArray_NDIM(aIndex) == 1 ? PyArray_STRIDE(aIndex, 0) : 1;
+            stBICallback.strideValues = PyArray_NDIM(aValues) == 1 ? PyArray_STRIDE(aValues, 0) : PyArray_ITEMSIZE(aValues);
 
             THREADER->DoMultiThreadedChunkWork(lengthBool, lambdaBICallback2, &stBICallback);
         }
@@ -1086,22 +1087,23 @@ getitem(PyObject* self, PyObject* args)
     int64_t strideValue = 0;
     int64_t strideIndex = 0;
 
-    int result1 = GetStridesAndContig(aValues, ndimValue, strideValue);
-    int result2 = GetStridesAndContig(aIndex, ndimIndex, strideIndex);
+    GetStridesAndContig(aValues, ndimValue, strideValue);
+    GetStridesAndContig(aIndex, ndimIndex, strideIndex);
 
-
-    // This logic is not quite correct, if the strides on all dimensions are the same, we can use this routine
-    if (result1 != 0) {
-        if (!PyArray_ISCONTIGUOUS(aValues)) {
-            PyErr_Format(PyExc_ValueError, "Dont know how to handle multidimensional array %d using index dtype: %d", numpyValuesType, numpyIndexType);
-            return NULL;
-        }
+    // One dimension can be strided, more are walked in C order
+    if (ndimValue != 1 && !PyArray_ISCONTIGUOUS(aValues)) {
+        PyErr_Format(PyExc_ValueError, "Dont know how to handle multidimensional array %d using index dtype: %d", numpyValuesType, numpyIndexType);
+        return NULL;
     }
-    if (result2 != 0) {
-        if (!PyArray_ISCONTIGUOUS(aIndex)) {
-            PyErr_Format(PyExc_ValueError, "Dont know how to handle multidimensional array %d using index dtype: %d", numpyValuesType, numpyIndexType);
-            return NULL;
-        }
+    if (ndimIndex != 1 && !PyArray_ISCONTIGUOUS(aIndex)) {
+        PyErr_Format(PyExc_ValueError, "Dont know how to handle multidimensional array %d using index dtype: %d", numpyValuesType, numpyIndexType);
+        return NULL;
+    }
+    if (ndimValue != 1) {
+        strideValue = PyArray_ITEMSIZE(aValues);
+    }
+    if (ndimIndex != 1) {
+        strideIndex = PyArray_ITEMSIZE(aIndex);
     }
 
     //printf("numpy types %d %d\n", numpyValuesType, numpyIndexType);
-- 
2.43.0


From 9d19156ef09522f6b374f322c3851ccaac444aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:13 +0000
Subject: [PATCH 38/68] fix: getitem copied objects without counting the
 references

---
 src/pnumpy/getitem.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pnumpy/getitem.cpp b/src/pnumpy/getitem.cpp
index 86caf51..9b436ae 100644
--- a/src/pnumpy/getitem.cpp
+++ b/src/pnumpy/getitem.cpp
@@ -1077,6 +1077,12 @@ getitem(PyObject* self, PyObject* args)
         return NULL;
     }
 
+    // The items are copied as bytes, without reference counts
+    if (PyDataType_REFCHK(PyArray_DESCR(aValues))) {
+        PyErr_Format(PyExc_ValueError, "getitem cannot handle arrays of objects");
+        return NULL;
+    }
+
     if (numpyIndexType == NPY_BOOL) {
         // special path for boolean
         return BooleanIndexInternal(aValues, aIndex);
-- 
2.43.0


From 7c6159c53ea9733b5307451bee2ae34068da1475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:13 +0000
Subject: [PATCH 39/68] fix: getitem read byte swapped indexes as native

---
 src/pnumpy/getitem.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pnumpy/getitem.cpp b/src/pnumpy/getitem.cpp
index 9b436ae..4c04584 100644
--- a/src/pnumpy/getitem.cpp
+++ b/src/pnumpy/getitem.cpp
@@ -1088,6 +1088,11 @@ getitem(PyObject* self, PyObject* args)
         return BooleanIndexInternal(aValues, aIndex);
     }
 
+    if (PyArray_ISBYTESWAPPED(aIndex) || PyArray_ISBYTESWAPPED(aValues)) {
+        PyErr_Format(PyExc_ValueError, "getitem cannot handle byte swapped arrays");
+        return NULL;
+    }
+
     int ndimValue;
     int ndimIndex;
     int64_t strideValue = 0;
-- 
2.43.0


From aeaae38f174a90601f6a7c76a75bf74d4aad2283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:13 +0000
Subject: [PATCH 40/68] fix: getitem keeps the dtype of the values

---
 src/pnumpy/common.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/pnumpy/common.cpp b/src/pnumpy/common.cpp
index 06c584e..ce03a9f 100644
--- a/src/pnumpy/common.cpp
+++ b/src/pnumpy/common.cpp
@@ -157,13 +157,15 @@ PyArrayObject* AllocateNumpyArray(int ndim, npy_intp* dims, int32_t numpyType, i
 //-----------------------------------------------------------------------------------
 // NOTE: will only allocate 1 dim arrays
 PyArrayObject* AllocateLikeResize(PyArrayObject* inArr, npy_intp rowSize) {
-    int numpyType = PyArray_TYPE(inArr);
-
-    PyArrayObject* result = NULL;
-
-    int64_t itemSize = PyArray_ITEMSIZE(inArr);
-    result = AllocateNumpyArray(1, &rowSize, numpyType, itemSize);
-
+    // keep the unit of datetimes, the fields of records and the byte order
+    PyArray_Descr* descr = PyArray_DESCR(inArr);
+    Py_INCREF(descr);
+    PyArrayObject* result = (PyArrayObject*)PyArray_NewFromDescr(pPyArray_Type, descr, 1, &rowSize, NULL, NULL, 0, NULL);
+
+    if (result && PyArray_ITEMSIZE(inArr) == 0) {
+        // there is nothing to copy into the one character numpy allocates
+        memset(PyArray_BYTES(result), 0, PyArray_NBYTES(result));
+    }
     return result;
 }
 
-- 
2.43.0


From 317ccd323e9b85ccff6f69a904b17a10e88f0e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:36 +0000
Subject: [PATCH 41/68] fix: getitem read defaults shorter than the item and
 from unaligned or unset memory

---
 src/pnumpy/getitem.cpp | 46 +++++++++++++++++++++++++++++++++---------
 1 file changed, 37 insertions(+), 9 deletions(-)

diff --git a/src/pnumpy/getitem.cpp b/src/pnumpy/getitem.cpp
index 4c04584..81fb70d 100644
--- a/src/pnumpy/getitem.cpp
+++ b/src/pnumpy/getitem.cpp
@@ -1138,21 +1138,48 @@ getitem(PyObject* self, PyObject* args)
 
         if (outArray) {
             void* pDataOut = PyArray_BYTES(outArray);
-            void* pDefault = GetDefaultForType(numpyValuesType);
-
-            // reserve a full 16 bytes for default in case we have oneS
-            char tempDefault[128];
+            // The default of one item, padded with zeros: the types without a default,
+            // or with a default that is shorter than the item, read itemsize bytes
+            char* pDefault = (char*)WORKSPACE_ALLOC(aValueItemSize + 32);
+            if (!pDefault) {
+                Py_DECREF(outArray);
+                PyErr_Format(PyExc_ValueError, "GetItem ran out of memory %d %d", numpyValuesType, numpyIndexType);
+                return NULL;
+            }
+            memset(pDefault, 0, aValueItemSize + 32);
+            if (numpyValuesType == NPY_LONGDOUBLE) {
+                *(long double*)pDefault = NAN;
+            }
+            else if (numpyValuesType < NPY_LONGDOUBLE || numpyValuesType == NPY_DATETIME || numpyValuesType == NPY_TIMEDELTA) {
+                memcpy(pDefault, GetDefaultForType(numpyValuesType <= NPY_LONGDOUBLE ? numpyValuesType : NPY_INT64), aValueItemSize);
+            }
 
             // Check if a default value was passed in as third parameter
             if (defaultValue != Py_None) {
-                BOOL result;
-                int64_t itemSize;
+                alignas(32) char tempDefault[128];
+                int64_t itemSize = 0;
                 void* pTempData = NULL;
                 // Try to convert the scalar
-                result = ConvertScalarObject(defaultValue, &tempDefault, numpyValuesType, &pTempData, &itemSize);
-                if (result) {
+                if (ConvertScalarObject(defaultValue, &tempDefault, numpyValuesType, &pTempData, &itemSize)) {
                     // Assign the new default for out of range indexes
-                    pDefault = &tempDefault;
+                    if (pTempData == &tempDefault) {
+                        if (numpyValuesType == NPY_LONGDOUBLE) {
+                            *(long double*)pDefault = *(double*)tempDefault;
+                        }
+                        else if (PyTypeNum_ISNUMBER(numpyValuesType) || PyTypeNum_ISBOOL(numpyValuesType)) {
+                            memcpy(pDefault, tempDefault, aValueItemSize < 32 ? aValueItemSize : 32);
+                        }
+                    }
+                    else {
+                        // a string: bytes or UCS4
+                        if (numpyValuesType == (PyBytes_Check(defaultValue) ? NPY_STRING : NPY_UNICODE)) {
+                            memset(pDefault, 0, aValueItemSize);
+                            memcpy(pDefault, pTempData, itemSize < aValueItemSize ? itemSize : aValueItemSize);
+                        }
+                        if (!PyBytes_Check(defaultValue)) {
+                            PyMem_Free(pTempData);
+                        }
+                    }
                 }
             }
 
@@ -1195,6 +1222,7 @@ getitem(PyObject* self, PyObject* args)
                 //g_cMathWorker->WorkMain(pWorkItem, aIndexLength);
             }
 
+            WORKSPACE_FREE(pDefault);
             return (PyObject*)outArray;
         }
         PyErr_Format(PyExc_ValueError, "GetItem ran out of memory %d %d", numpyValuesType, numpyIndexType);
-- 
2.43.0


From 513f3c01f12b5cf0fcbda926c9fdb3b51f8f42f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:56 +0000
Subject: [PATCH 42/68] fix: arange keeps the first two values numpy computed

---
 src/atop/fill.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/atop/fill.cpp b/src/atop/fill.cpp
index eca8480..3cec18b 100644
--- a/src/atop/fill.cpp
+++ b/src/atop/fill.cpp
@@ -70,6 +70,9 @@ ArangeFillType(char *pBufferV, void* pFirstV, void* pNextValueV, int64_t start,
 
     delta -= first;
 
+    // Leave the first two values as numpy stored them (other threads read them also)
+    if (start < 2) start = 2;
+
     // TOOD: vectorize this code
     for (int64_t i = start; i < length; i++) {
         pBuffer[i] = (TYPE)(first + i * delta);
-- 
2.43.0


From e75158f224f8e1cc6bd86f066c97c98ec2d7a03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:25 +0000
Subject: [PATCH 43/68] fix: the first thread to ask for work by index left
 without doing any

GetNextWorkIndex returns 0 to say nothing is left, and the counter started
at 0, so whichever thread asked first quit.  When no worker is woken (one
usable CPU, or a forked child) that is the caller, which then waits for ever.
---
 src/atop/threads.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/atop/threads.h b/src/atop/threads.h
index 20214c0..9bab74a 100644
--- a/src/atop/threads.h
+++ b/src/atop/threads.h
@@ -1115,7 +1115,8 @@ public:
         }
 
         pWorkItem->BlocksCompleted = 0;
-        pWorkItem->BlockNext = 0;
+        // GetNextWorkIndex counts from 1 and returns 0 when nothing is left
+        pWorkItem->BlockNext = bGenericMode ? 0 : 1;
         pWorkItem->BlockSize = BlockSize;
 
         int32_t threads = (threadWakeup + 1);
-- 
2.43.0


From 531bc8a2fd67330e753308ba69790a363e192fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:25 +0000
Subject: [PATCH 44/68] fix: workers picked up work items that were not set up
 yet

---
 src/atop/threads.cpp | 4 ++--
 src/atop/threads.h   | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/atop/threads.cpp b/src/atop/threads.cpp
index e3f670b..a006a98 100644
--- a/src/atop/threads.cpp
+++ b/src/atop/threads.cpp
@@ -110,12 +110,12 @@ WorkerThreadFunction(void* lpParam)
 
         // See if work to do
         if (workIndex > workIndexCompleted) {
-            stMATH_WORKER_ITEM* pWorkItem = pWorkerRing->GetExistingWorkItem();
+            stMATH_WORKER_ITEM* pWorkItem = pWorkerRing->GetExistingWorkItem(workIndex);
 
             // check if the work was for our thread
             if ((int64_t)core <= pWorkItem->ThreadWakeup) {
                 LOGGING("Pos Waking %d %d %lld\n", core, pool, workIndex);
-                didSomeWork = pWorkItem->DoWork(core, pWorkerRing->MainWorkIndex);
+                didSomeWork = pWorkItem->DoWork(core, workIndex);
             }
             else {
                 LOGGING("Not Waking %d %d %lld\n", core, pool, workIndex);
diff --git a/src/atop/threads.h b/src/atop/threads.h
index 9bab74a..de75ecb 100644
--- a/src/atop/threads.h
+++ b/src/atop/threads.h
@@ -477,9 +477,9 @@ struct stWorkerRing {
         return pWorkItem;
     }
 
-    FORCE_INLINE stMATH_WORKER_ITEM* GetExistingWorkItem() {
-        // Note: not safe when multiproc used
-        return  &WorkerQueue[MainWorkIndex  & RING_BUFFER_MASK];
+    FORCE_INLINE stMATH_WORKER_ITEM* GetExistingWorkItem(int64_t workIndex) {
+        // Note: workIndex must come from Pool.WorkIndex, the item at MainWorkIndex may not be set up yet
+        return  &WorkerQueue[workIndex  & RING_BUFFER_MASK];
     }
 
     FORCE_INLINE void WakeupWorkItem(int pool, int32_t maxThreadsToWake) {
-- 
2.43.0


From f67d3ea9aa67c9b5c280aa2fdc2f0dd5ef741f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:32 +0000
Subject: [PATCH 45/68] fix: several calling threads published work at the same
 time

The exclusive lock was dropped as soon as a work item was handed out, so two
Python threads in WorkMain overwrote each other's published work index and
workers ran callbacks whose arguments were gone.  Hold it until the work is
complete; other callers find it taken and run single threaded.
---
 src/atop/sort.cpp  |  2 ++
 src/atop/threads.h | 26 +++++++++++++++++---------
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/atop/sort.cpp b/src/atop/sort.cpp
index 88c5e14..2c893a3 100644
--- a/src/atop/sort.cpp
+++ b/src/atop/sort.cpp
@@ -2020,6 +2020,7 @@ par_amergesort(
             pWorkSpace = WORKSPACE_ALLOC(allocSize);
 
             if (pWorkSpace == NULL) {
+                THREADER->ReleaseWorkItem();
                 return -1;
             }
 
@@ -2149,6 +2150,7 @@ par_sort(
         pWorkSpace = WORKSPACE_ALLOC(allocSize);
 
         if (pWorkSpace == NULL) {
+            THREADER->ReleaseWorkItem();
             return -1;
         }
 
diff --git a/src/atop/threads.h b/src/atop/threads.h
index de75ecb..6878955 100644
--- a/src/atop/threads.h
+++ b/src/atop/threads.h
@@ -1044,9 +1044,7 @@ public:
             return NULL;
         }
 
-        // Otherwise allow parallel processing
-        stMATH_WORKER_ITEM* pWorkItem = pWorkerRings[0]->GetWorkItem();
-        return pWorkItem;
+        return AcquireWorkItem();
     }
 
 
@@ -1059,20 +1057,29 @@ public:
             return NULL;
         }
 
+        return AcquireWorkItem();
+    }
+
+    //------------------------------------------------------------------------------
+    // Returns NULL if the worker threads are busy on behalf of another thread
+    // Otherwise returns a work item, which WorkMain or ReleaseWorkItem gives back
+    inline stMATH_WORKER_ITEM* AcquireWorkItem() {
         stWorkerRing* pstRing = pWorkerRings[0];
 
-        // Grab atomic lock in case of threading inside threading
+        // Grab atomic lock in case of threading inside threading or several calling threads
         if (AtopInterlockedOr(&pstRing->ExclusiveLock, 1) == 0) {
-
-            // Otherwise allow parallel processing
-            stMATH_WORKER_ITEM* pWorkItem = pstRing->GetWorkItem();
-            pstRing->ExclusiveLock = 0;
-            return pWorkItem;
+            return pstRing->GetWorkItem();
         }
         // could not grab lock
         return NULL;
     }
 
+    //------------------------------------------------------------------------------
+    // Lets the next caller use the worker threads
+    inline void ReleaseWorkItem() {
+        AtopInterlockedAnd(&pWorkerRings[0]->ExclusiveLock, 0);
+    }
+
     //------------------------------------------------------------------------------
     // Called from main thread
     // This function will divide up the work and wake up any worker threads
@@ -1165,6 +1172,7 @@ public:
 
         // Mark this as completed
         pWorkerRings[0]->CompleteWorkItem(threadWakeup, pWorkItem);
+        ReleaseWorkItem();
 
     }
 
-- 
2.43.0


From 00ca91320315ab6282ca343fec18842f3bde1c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:08 +0000
Subject: [PATCH 46/68] fix: boolean getitem counted without threads and copied
 with them

When the worker threads were busy during the first pass and free during the
second, the second pass read counts that were never written.
---
 src/pnumpy/getitem.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/pnumpy/getitem.cpp b/src/pnumpy/getitem.cpp
index 81fb70d..eb504fb 100644
--- a/src/pnumpy/getitem.cpp
+++ b/src/pnumpy/getitem.cpp
@@ -190,9 +190,15 @@ int64_t BooleanCount(PyArrayObject* aIndex, int64_t** ppChunkCount) {
             // This means the current function is just responsible for parallelizing over the chunks
             // but doesn't do any real "math" itself.
             int64_t strides = callbackArg->strideBoolean;
-            int64_t total = SumBooleanMask(&pBooleanMask[start * strides], length, strides);
+            const int64_t end = start + length;
 
-            pChunkCount[start / THREADER->WORK_ITEM_CHUNK] = total;
+            // This is more than one chunk when no worker threads are used
+            do {
+                int64_t chunkLength = end - start < THREADER->WORK_ITEM_CHUNK ? end - start : THREADER->WORK_ITEM_CHUNK;
+
+                pChunkCount[start / THREADER->WORK_ITEM_CHUNK] = SumBooleanMask(&pBooleanMask[start * strides], chunkLength, strides);
+                start += chunkLength;
+            } while (start < end);
             return TRUE;
         };
 
@@ -201,11 +207,11 @@ int64_t BooleanCount(PyArrayObject* aIndex, int64_t** ppChunkCount) {
         stBSCallback.pBooleanMask = pBooleanMask;
         stBSCallback.strideBoolean = PyArray_NDIM(aIndex) == 1 ? PyArray_STRIDE(aIndex, 0) : 1;
 
-        BOOL didMtWork = THREADER->DoMultiThreadedChunkWork(lengthBool, lambdaBSCallback, &stBSCallback);
+        THREADER->DoMultiThreadedChunkWork(lengthBool, lambdaBSCallback, &stBSCallback);
 
         *ppChunkCount = pChunkCount;
-        // if multithreading turned off...
-        return didMtWork ? chunks : 1;
+        // the caller may use worker threads even if they were busy just now
+        return chunks;
     }
     // out of memory
     return 0;
-- 
2.43.0


From 101336640834bc8b1fb44affa18539a2b5ebfe2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:00 +0000
Subject: [PATCH 47/68] fix: cpu_count_linux can fall back to /proc/stat

---
 src/pnumpy/cpu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pnumpy/cpu.py b/src/pnumpy/cpu.py
index 6eadfb7..22efe9c 100644
--- a/src/pnumpy/cpu.py
+++ b/src/pnumpy/cpu.py
@@ -76,7 +76,7 @@ def cpu_count_linux():
         # try to parse /proc/stat as a last resort
         if num == 0:
             search = re.compile(r'cpu\d')
-            with open_text('/proc/stat') as f:
+            with open('/proc/stat') as f:
                 for line in f:
                     line = line.split(' ')[0]
                     if search.match(line):
-- 
2.43.0


From 3fde325d098b87e71a0b13e70d54091f7b7a3b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:07 +0000
Subject: [PATCH 48/68] fix: floating point errors raised in worker threads
 were lost

numpy checks the status of the calling thread, so overflow, division by zero
and invalid operations in the part of an array that a worker computed were
never reported.
---
 src/atop/threads.cpp |  1 +
 src/atop/threads.h   | 14 ++++++++++++++
 2 files changed, 15 insertions(+)

diff --git a/src/atop/threads.cpp b/src/atop/threads.cpp
index a006a98..f3910ec 100644
--- a/src/atop/threads.cpp
+++ b/src/atop/threads.cpp
@@ -115,6 +115,7 @@ WorkerThreadFunction(void* lpParam)
             // check if the work was for our thread
             if ((int64_t)core <= pWorkItem->ThreadWakeup) {
                 LOGGING("Pos Waking %d %d %lld\n", core, pool, workIndex);
+                std::feclearexcept(FE_ALL_EXCEPT);
                 didSomeWork = pWorkItem->DoWork(core, workIndex);
             }
             else {
diff --git a/src/atop/threads.h b/src/atop/threads.h
index 6878955..bea0862 100644
--- a/src/atop/threads.h
+++ b/src/atop/threads.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include "common_inc.h"
+#include <cfenv>
 
 #if defined(__GNUC__)
 #if __GNUC_PREREQ(4, 4) || (__clang__ > 0 && __clang_major__ >= 3) || !defined(__GNUC__)
@@ -245,6 +246,10 @@ struct stMATH_WORKER_ITEM {
     int32_t             ZigZag;
     int32_t             reserved1;
 
+    // The floating point exceptions raised in the worker threads (atomic)
+    // WorkMain raises them again in the calling thread, which is where numpy looks for them
+    int64_t             FPStatus;
+
 
     // Current and Last are used to keep cores in their pool until they are completed
     // This should help with L1,L2 caches
@@ -261,6 +266,10 @@ struct stMATH_WORKER_ITEM {
         // Indicate we completed a block
         // if BlocksCompleted >= BlockLast, we are done
         THREADLOGGING("[%d] Completed %I64d\n", core, BlocksCompleted);
+        if (core != 0) {
+            int status = std::fetestexcept(FE_DIVBYZERO | FE_INVALID | FE_OVERFLOW | FE_UNDERFLOW);
+            if (status) AtopInterlockedOr(&FPStatus, status);
+        }
         InterlockedIncrement64(&BlocksCompleted);
     }
 
@@ -1122,6 +1131,7 @@ public:
         }
 
         pWorkItem->BlocksCompleted = 0;
+        pWorkItem->FPStatus = 0;
         // GetNextWorkIndex counts from 1 and returns 0 when nothing is left
         pWorkItem->BlockNext = bGenericMode ? 0 : 1;
         pWorkItem->BlockSize = BlockSize;
@@ -1170,6 +1180,10 @@ public:
 
         //MATHLOGGING("Complete work item\n");
 
+        if (pWorkItem->FPStatus) {
+            std::feraiseexcept((int)pWorkItem->FPStatus);
+        }
+
         // Mark this as completed
         pWorkerRings[0]->CompleteWorkItem(threadWakeup, pWorkItem);
         ReleaseWorkItem();
-- 
2.43.0


From 0e4467c5d5fbdfedc78fe513b4b61910e97a46cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:07 +0000
Subject: [PATCH 49/68] fix: comparing with NaN reported an invalid value

numpy clears the flag after its comparison, minimum, maximum and sign loops.
---
 src/pnumpy/_pnumpy.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/pnumpy/_pnumpy.cpp b/src/pnumpy/_pnumpy.cpp
index 95b30eb..650f484 100644
--- a/src/pnumpy/_pnumpy.cpp
+++ b/src/pnumpy/_pnumpy.cpp
@@ -672,6 +672,15 @@ static bool CanDivideReduce(int funcop) {
     return false;
 }
 
+//=============================================================
+// Comparing with a NaN raises the invalid exception in some loops
+// numpy's own loops for compare, minimum, maximum and sign clear it
+static FORCE_INLINE void ClearInvalidOfCompare(int atype) {
+    if (atype >= ATOP_HALF_FLOAT && atype <= ATOP_LONGDOUBLE) {
+        std::feclearexcept(FE_INVALID);
+    }
+}
+
 //============================================================================
 // For binary math functions like add, sbutract, multiply.
 // 2 inputs and 1 output
@@ -834,6 +843,9 @@ static void AtopBinaryMathFunction(char** args, const npy_intp* dimensions, cons
                 THREADER->WorkMain(pWorkItem, n, pstUFunc->MaxThreads);
             }
         }
+        if (funcop == BINARY_OPERATION::MIN || funcop == BINARY_OPERATION::MAX) {
+            ClearInvalidOfCompare(atype);
+        }
         return;
     }
 
@@ -907,6 +919,7 @@ static void AtopCompareMathFunction(char** args, const npy_intp* dimensions, con
             // most functions are so fast, we do not need more than 4 worker threads
             THREADER->WorkMain(pWorkItem, n, pstUFunc->MaxThreads);
         }
+        ClearInvalidOfCompare(atype);
         return;
     }
 
@@ -979,6 +992,9 @@ static void AtopUnaryMathFunction(char** args, const npy_intp* dimensions, const
             // most functions are so fast, we do not need more than 4 worker threads
             THREADER->WorkMain(pWorkItem, n, pstUFunc->MaxThreads);
         }
+        if (funcop == UNARY_OPERATION::SIGN) {
+            ClearInvalidOfCompare(atype);
+        }
         return;
     }
     // Ledger is on, turn it off and call back to ourselves to time it    
-- 
2.43.0


From 7f8094883861cedd502393fafba1a6cc1bb66ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:07 +0000
Subject: [PATCH 50/68] fix: with 16 channels in use the mark after the last
 one was written out of bounds

Of the last work item of the ring this was outside of the allocated memory.
---
 src/atop/threads.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/atop/threads.h b/src/atop/threads.h
index bea0862..a5949c1 100644
--- a/src/atop/threads.h
+++ b/src/atop/threads.h
@@ -253,7 +253,8 @@ struct stMATH_WORKER_ITEM {
 
     // Current and Last are used to keep cores in their pool until they are completed
     // This should help with L1,L2 caches
-    stWorkerChannel     WorkerChannel[MAX_WORKER_HANDLES];
+    // WorkMain marks the one after the last channel used
+    stWorkerChannel     WorkerChannel[MAX_WORKER_HANDLES + 1];
 
     //==============================================================
     FORCE_INLINE int64_t GetWorkBlock() {
-- 
2.43.0


From ecacd1359e3653d3899760cde54a069e3caf375a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:59 +0000
Subject: [PATCH 51/68] fix: workers coming late looked at arguments of calls
 that had returned

A worker which picks up a work item reads the callback's arguments, which live
on the stack of the caller, before it knows whether there is work left.  The
caller now waits for the workers inside of its work item.
---
 src/atop/threads.cpp |  7 ++++++-
 src/atop/threads.h   | 10 ++++++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/atop/threads.cpp b/src/atop/threads.cpp
index f3910ec..88d250d 100644
--- a/src/atop/threads.cpp
+++ b/src/atop/threads.cpp
@@ -112,8 +112,12 @@ WorkerThreadFunction(void* lpParam)
         if (workIndex > workIndexCompleted) {
             stMATH_WORKER_ITEM* pWorkItem = pWorkerRing->GetExistingWorkItem(workIndex);
 
+            // WorkMain does not return while we are inside, unless it completed before we entered
+            InterlockedIncrement64(&pWorkItem->WorkersInside);
+            workIndexCompleted = pWorkerRing->Pool[pool].WorkIndexCompleted;
+
             // check if the work was for our thread
-            if ((int64_t)core <= pWorkItem->ThreadWakeup) {
+            if (workIndex > workIndexCompleted && (int64_t)core <= pWorkItem->ThreadWakeup) {
                 LOGGING("Pos Waking %d %d %lld\n", core, pool, workIndex);
                 std::feclearexcept(FE_ALL_EXCEPT);
                 didSomeWork = pWorkItem->DoWork(core, workIndex);
@@ -122,6 +126,7 @@ WorkerThreadFunction(void* lpParam)
                 LOGGING("Not Waking %d %d %lld\n", core, pool, workIndex);
 
             }
+            InterlockedAdd64(&pWorkItem->WorkersInside, -1);
         }
 
         // didSomeWork contains how many work items the thread completed
diff --git a/src/atop/threads.h b/src/atop/threads.h
index a5949c1..4320d8e 100644
--- a/src/atop/threads.h
+++ b/src/atop/threads.h
@@ -250,6 +250,9 @@ struct stMATH_WORKER_ITEM {
     // WorkMain raises them again in the calling thread, which is where numpy looks for them
     int64_t             FPStatus;
 
+    // How many worker threads are looking at this work item (atomic)
+    volatile int64_t    WorkersInside;
+
 
     // Current and Last are used to keep cores in their pool until they are completed
     // This should help with L1,L2 caches
@@ -1133,6 +1136,7 @@ public:
 
         pWorkItem->BlocksCompleted = 0;
         pWorkItem->FPStatus = 0;
+        pWorkItem->WorkersInside = 0;
         // GetNextWorkIndex counts from 1 and returns 0 when nothing is left
         pWorkItem->BlockNext = bGenericMode ? 0 : 1;
         pWorkItem->BlockSize = BlockSize;
@@ -1187,6 +1191,12 @@ public:
 
         // Mark this as completed
         pWorkerRings[0]->CompleteWorkItem(threadWakeup, pWorkItem);
+
+        // The arguments of the callback are gone when we return
+        // Wait for workers which came too late to find any work
+        while (AtopInterlockedOr(&pWorkItem->WorkersInside, 0) > 0) {
+            YieldProcessor();
+        }
         ReleaseWorkItem();
 
     }
-- 
2.43.0


From 2cd3094099cd6d05e6c162cd401183a422aa9749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:05 +0000
Subject: [PATCH 52/68] fix: ledger_disable was undone by calls in other
 threads

---
 src/pnumpy/_pnumpy.cpp | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/pnumpy/_pnumpy.cpp b/src/pnumpy/_pnumpy.cpp
index 650f484..6c9d5d7 100644
--- a/src/pnumpy/_pnumpy.cpp
+++ b/src/pnumpy/_pnumpy.cpp
@@ -347,12 +347,16 @@ stArangeFunc g_ArangeFuncLUT[ATOP_LAST];
 // set to 0 to disable
 stSettings g_Settings = { 1, 0, 0, 0, 0, 0, 0 };
 
+// Set while a thread times a call, other threads and the setting itself are left alone
+static thread_local int t_LedgerBusy = 0;
+#define LEDGER_ISOFF    (!g_Settings.LedgerEnabled || t_LedgerBusy)
+
 // Macro used just before call a ufunc
-#define LEDGER_START()    g_Settings.LedgerEnabled = 0; int64_t ledgerStartTime = __rdtsc();
+#define LEDGER_START()    t_LedgerBusy = 1; int64_t ledgerStartTime = __rdtsc();
 
 // Macro used just after ufunc call returns
-#define LEDGER_END(_cat_) g_Settings.LedgerEnabled = 1; LedgerRecord(_cat_, ledgerStartTime, (int64_t)__rdtsc(), args, dimensions, steps, innerloop, funcop, atype);
-#define LEDGER_END2(_cat_) g_Settings.LedgerEnabled = 1; LedgerRecord2(_cat_, ledgerStartTime, (int64_t)__rdtsc(), atype, length);
+#define LEDGER_END(_cat_) t_LedgerBusy = 0; LedgerRecord(_cat_, ledgerStartTime, (int64_t)__rdtsc(), args, dimensions, steps, innerloop, funcop, atype);
+#define LEDGER_END2(_cat_) t_LedgerBusy = 0; LedgerRecord2(_cat_, ledgerStartTime, (int64_t)__rdtsc(), atype, length);
 
 //------------------------------------------------------------------------------
 //  Concurrent callback from multiple threads
@@ -686,7 +690,7 @@ static FORCE_INLINE void ClearInvalidOfCompare(int atype) {
 // 2 inputs and 1 output
 static void AtopBinaryMathFunction(char** args, const npy_intp* dimensions, const npy_intp* steps, void* innerloop, int funcop, int atype) {
 
-    if (!g_Settings.LedgerEnabled) {
+    if (LEDGER_ISOFF) {
         stUFunc* pstUFunc = &g_UFuncLUT[funcop][atype];
         npy_intp n = dimensions[0];
 
@@ -860,7 +864,7 @@ static void AtopBinaryMathFunction(char** args, const npy_intp* dimensions, cons
 //=============================================================
 // All simple compare functions that we hook hit this routine
 static void AtopCompareMathFunction(char** args, const npy_intp* dimensions, const npy_intp* steps, void* innerloop, int funcop, int atype) {
-    if (!g_Settings.LedgerEnabled) {
+    if (LEDGER_ISOFF) {
         // LOGGING("comparison called with %d %d   funcp: %p  len: %lld\n", funcop, atype, g_CompFuncLUT[funcop][atype].pOldFunc, (long long)dimensions[0]);
         stUFunc* pstUFunc = &g_CompFuncLUT[funcop][atype];
         npy_intp n = dimensions[0];
@@ -937,7 +941,7 @@ static void AtopCompareMathFunction(char** args, const npy_intp* dimensions, con
 // For unary math functions like abs, sqrt
 // 1 input and 1 output
 static void AtopUnaryMathFunction(char** args, const npy_intp* dimensions, const npy_intp* steps, void* innerloop, int funcop, int atype) {
-    if (!g_Settings.LedgerEnabled) {
+    if (LEDGER_ISOFF) {
         npy_intp n = dimensions[0];
         stUFunc* pstUFunc = &g_UnaryFuncLUT[funcop][atype];
         UNARY_FUNC pUnaryFunc = pstUFunc->pUnaryFunc;
@@ -1009,7 +1013,7 @@ static void AtopUnaryMathFunction(char** args, const npy_intp* dimensions, const
 // All trig and log like function that we hook hit this routine
 //
 static void AtopTrigMathFunction(char** args, const npy_intp* dimensions, const npy_intp* steps, void* innerloop, int funcop, int atype) {
-    if (!g_Settings.LedgerEnabled) {
+    if (LEDGER_ISOFF) {
         npy_intp n = dimensions[0];
         stUFunc* pstUFunc = &g_TrigFuncLUT[funcop][atype];
         UNARY_FUNC pUnaryFunc = pstUFunc->pUnaryFunc;
@@ -1091,7 +1095,7 @@ static int AtopSortMathFunction(void* pDest, npy_intp length, void* pArrayObject
     //if (!pArrayObject)
     //    printf("pArrayObject is null!\n");
     LOGGING("sort called %d %d   dest:%p  dest:%p\n", sortkind, atype, pDest, PyArray_BYTES((PyArrayObject*)pArrayObject));
-    if (!g_Settings.LedgerEnabled) {
+    if (LEDGER_ISOFF) {
         stSortFunc* pSortFunc = &g_SortFuncLUT[sortkind][atype];
 
         if (g_Settings.AtopEnabled) {
@@ -1136,7 +1140,7 @@ static int AtopSortMathFunction(void* pDest, npy_intp length, void* pArrayObject
 // All argsort like functions that we hook hit this routine
 static int AtopArgSortMathFunction(void* pValue, npy_intp* pInt64Buffer, npy_intp length, void* pArrayObject, int sortkind, int atype) {
     LOGGING("argsort called %d %d   src:%p\n", sortkind, atype, pValue);
-    if (!g_Settings.LedgerEnabled) {
+    if (LEDGER_ISOFF) {
         stArgSortFunc* pArgSortFunc = &g_ArgSortFuncLUT[sortkind][atype];
         if (g_Settings.AtopEnabled) {
             PyArrayObject* pSrcObject = (PyArrayObject*)pArrayObject;
@@ -1182,7 +1186,7 @@ static int AtopArgSortMathFunction(void* pValue, npy_intp* pInt64Buffer, npy_int
 // All argminmax like functions that we hook hit this routine
 static int AtopArgMinMaxMathFunction(void* pValue, npy_intp length, npy_intp* something, void* pArrayObject, int kind, int atype) {
     LOGGING("argminmax called %d %d   src:%p\n", kind, atype, pValue);
-    if (!g_Settings.LedgerEnabled) {
+    if (LEDGER_ISOFF) {
         stArgMinMaxFunc* pArgMinMaxFunc = &g_ArgMinMaxFuncLUT[kind][atype];
         if (g_Settings.AtopEnabled) {
         }
@@ -1199,7 +1203,7 @@ static int AtopArgMinMaxMathFunction(void* pValue, npy_intp length, npy_intp* so
 // All arange like functions that we hook hit this routine
 static int AtopArangeMathFunction(void* pValue, npy_intp length, void* unused, int atype) {
     LOGGING("Arange called %d   src:%p\n", atype, pValue);
-    if (!g_Settings.LedgerEnabled) {
+    if (LEDGER_ISOFF) {
         stArangeFunc* pArangeFunc = &g_ArangeFuncLUT[atype];
         if (g_Settings.AtopEnabled) {
             int itemsize = convert_atop_to_itemsize[atype];
-- 
2.43.0


From a73d69e073f4149bc96e29d175c6345a64126f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:25 +0000
Subject: [PATCH 53/68] fix: floor_divide by nan reported an invalid value

---
 src/atop/ops_binary.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/atop/ops_binary.cpp b/src/atop/ops_binary.cpp
index 82c2c77..a09ec7e 100644
--- a/src/atop/ops_binary.cpp
+++ b/src/atop/ops_binary.cpp
@@ -83,6 +83,9 @@ template<typename T> static const inline T FloorDivFloat(T x, T y) {
     if (y == 0) return x / y;
 
     T mod = std::fmod(x, y);
+    // comparing nan below would report an invalid value
+    if (mod != mod) return mod;
+
     T div = (x - mod) / y;
     if (mod != 0 && ((y < 0) != (mod < 0))) div -= 1;
 
-- 
2.43.0


From 62c7616a5458082d31f6f315e6644cfb7823ce7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:36 +0000
Subject: [PATCH 54/68] fix: getitem with a numpy scalar as default leaks a
 reference to its dtype

---
 src/pnumpy/common.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pnumpy/common.cpp b/src/pnumpy/common.cpp
index ce03a9f..1e3d37d 100644
--- a/src/pnumpy/common.cpp
+++ b/src/pnumpy/common.cpp
@@ -318,8 +318,9 @@ BOOL ConvertScalarObject(PyObject* inObject1,  void* pDestVoid, int16_t numpyOut
             }
             else {
                 PyArray_Descr* dtype = PyArray_DescrFromScalar(inObject1);
-                //// NOTE: memory leak here?
-                if (dtype->type_num <= NPY_LONGDOUBLE) {
+                int type_num = dtype->type_num;
+                Py_DECREF(dtype);
+                if (type_num <= NPY_LONGDOUBLE) {
                     if (g_pDescrLongLong == NULL) {
                         g_pDescrLongLong = PyArray_DescrNewFromType(NPY_LONGLONG);
                         g_pDescrULongLong = PyArray_DescrNewFromType(NPY_ULONGLONG);
@@ -330,7 +331,7 @@ BOOL ConvertScalarObject(PyObject* inObject1,  void* pDestVoid, int16_t numpyOut
                 }
                 else {
                     // datetime64 falls into here
-                    LOGGING("!!punting on scalar type is %d\n", dtype->type_num);
+                    LOGGING("!!punting on scalar type is %d\n", type_num);
                     return FALSE;
                 }
             }
@@ -440,8 +441,8 @@ BOOL ConvertScalarObject(PyObject* inObject1,  void* pDestVoid, int16_t numpyOut
             if (PyArray_IsScalar((inObject1), Integer)) {
                 PyArray_Descr* dtype = PyArray_DescrFromScalar(inObject1);
 
-                // NOTE: memory leak here?
                 printf("!!integer scalar type is %d\n", dtype->type_num);
+                Py_DECREF(dtype);
                 return FALSE;
             }
             else {
-- 
2.43.0


From 035259ed21ba8c38122098ef35307a30a6a9a476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:36 +0000
Subject: [PATCH 55/68] fix: atop_info leaks the numbers it returns

---
 src/pnumpy/_pnumpy.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/pnumpy/_pnumpy.cpp b/src/pnumpy/_pnumpy.cpp
index 6c9d5d7..4240935 100644
--- a/src/pnumpy/_pnumpy.cpp
+++ b/src/pnumpy/_pnumpy.cpp
@@ -1885,14 +1885,13 @@ PyObject * atop_info(PyObject * self, PyObject * args) {
         }
         stUFunc* pstUFunc= GetFromDict(uname, dtype);
         if (pstUFunc) {
-            PyObject* pUnaryDict = PyDict_New();
-            PyDict_SetItemString(pUnaryDict, "MaxThreads",PyLong_FromLong(pstUFunc->MaxThreads));
-            PyDict_SetItemString(pUnaryDict, "MinElementsToThread", PyLong_FromLong(pstUFunc->MinElementsToThread));
-            PyDict_SetItemString(pUnaryDict, "pBinaryFunc", PyLong_FromLongLong((long long)(pstUFunc->pBinaryFunc)));
-            PyDict_SetItemString(pUnaryDict, "pOldFunc", PyLong_FromLongLong((long long)(pstUFunc->pOldFunc)));
-            PyDict_SetItemString(pUnaryDict, "pReduceFunc", PyLong_FromLongLong((long long)(pstUFunc->pReduceFunc)));
-            PyDict_SetItemString(pUnaryDict, "pUnaryFunc", PyLong_FromLongLong((long long)(pstUFunc->pUnaryFunc)));
-            return pUnaryDict;
+            return Py_BuildValue("{s:l,s:l,s:L,s:L,s:L,s:L}",
+                "MaxThreads", (long)pstUFunc->MaxThreads,
+                "MinElementsToThread", (long)pstUFunc->MinElementsToThread,
+                "pBinaryFunc", (long long)(pstUFunc->pBinaryFunc),
+                "pOldFunc", (long long)(pstUFunc->pOldFunc),
+                "pReduceFunc", (long long)(pstUFunc->pReduceFunc),
+                "pUnaryFunc", (long long)(pstUFunc->pUnaryFunc));
         }
 
     }
-- 
2.43.0


From 2dca6776a6453ec73f0896898c6e174184f4d379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:33 +0000
Subject: [PATCH 56/68] fix: threaded sort of a strided array read it as
 contiguous, past its end

---
 src/atop/sort.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/atop/sort.cpp b/src/atop/sort.cpp
index 2c893a3..da1c3f6 100644
--- a/src/atop/sort.cpp
+++ b/src/atop/sort.cpp
@@ -1573,6 +1573,9 @@ struct MERGE_STEP_ONE_CALLBACK {
     int64_t AllocChunk;
     int64_t TypeSizeInput;
 
+    // stride of the values that are copied when not sorting in place
+    int64_t StridesInput;
+
     // not valid for inplace sorting, otherwise is sizeof(int32) or sizeof(int64) depending on index size
     int64_t TypeSizeOutput;
 
@@ -1803,11 +1806,10 @@ static int64_t ParMergeInPlaceThreadCallback(struct stMATH_WORKER_ITEM* pstWorke
         // Workspace uses half the size
         char* pWorkSpace1 = Callback->pWorkSpace + (index * Callback->AllocChunk * itemSizeInput);
 
-        // Copy data over
-        // TODO: Fix for strided data
+        // Copy data over, the source may be strided
         // For a pure inplace sort, pSrcData will be the same as pData
         if (pSrcData != pData)
-            CopyData(pSrcData + (pFirst * itemSizeInput), MergeSize, Callback->TypeSizeInput, Callback->StrLen, pData + (pFirst * itemSizeInput), Callback->TypeSizeOutput);
+            CopyData(pSrcData + (pFirst * Callback->StridesInput), MergeSize, Callback->StridesInput, Callback->StrLen, pData + (pFirst * itemSizeInput), Callback->TypeSizeOutput);
 
         if (Callback->SortCallbackOne.sortfunc) {
             Callback->SortCallbackOne.sortfunc(pData + (pFirst * itemSizeInput), MergeSize);
@@ -2170,6 +2172,7 @@ par_sort(
         stParMergeCallback.AllocChunk = allocChunk;
         stParMergeCallback.pWorkSpace = (char*)pWorkSpace;
         stParMergeCallback.TypeSizeInput = itemSize;
+        stParMergeCallback.StridesInput = stridesIn;
         stParMergeCallback.TypeSizeOutput = stridesOut;
 
         // This will notify the worker threads of a new work item
-- 
2.43.0


From f3fa7b295921910e85fac012a29977a5dbaaef4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:07 +0000
Subject: [PATCH 57/68] fix: threaded sort of strings merged their characters

---
 src/atop/sort.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/atop/sort.cpp b/src/atop/sort.cpp
index da1c3f6..71448b2 100644
--- a/src/atop/sort.cpp
+++ b/src/atop/sort.cpp
@@ -2133,7 +2133,8 @@ par_sort(
     // If size is large, go parallel
     LOGGING("Parallel version  %p  %p  %p\n", pSortFunction.sortfunc, pOut , pValues);
 
-    stMATH_WORKER_ITEM* pWorkItem = THREADER->GetWorkItem(arrayLength);
+    // The merge moves items of type DATATYPE, it cannot merge longer strings
+    stMATH_WORKER_ITEM* pWorkItem = (itemSize == sizeof(DATATYPE)) ? THREADER->GetWorkItem(arrayLength) : NULL;
 
     if (pWorkItem) {
         MERGE_STEP_ONE_CALLBACK stParMergeCallback;
-- 
2.43.0


From db64217dc5449edbedd2623c90962cfc61eeea6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:39 +0000
Subject: [PATCH 58/68] fix: lexsort with an empty index used uninitialised
 memory as the index

---
 src/pnumpy/sorting.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pnumpy/sorting.cpp b/src/pnumpy/sorting.cpp
index c3c7002..859e858 100644
--- a/src/pnumpy/sorting.cpp
+++ b/src/pnumpy/sorting.cpp
@@ -438,7 +438,7 @@ PyObject* lexsort(PyObject* self, PyObject* args, PyObject* kwargs) {
             return NULL;
         }
 
-        if (indexLength > 0) {
+        if (index != NULL) {
             if (indexLength > arraySize1) {
                 PyErr_Format(PyExc_ValueError, "LexSort 'index' is larger than value array");
                 return NULL;
-- 
2.43.0


From 1ddf83a7645fa20b00e94c897af3bd39b72d3c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:28 +0000
Subject: [PATCH 59/68] fix: out of memory during a sort or lexsort was ignored
 and the result left unsorted

---
 src/atop/sort.cpp      | 19 +++++++++++++++----
 src/pnumpy/sorting.cpp |  9 +++++++--
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/atop/sort.cpp b/src/atop/sort.cpp
index 71448b2..674a872 100644
--- a/src/atop/sort.cpp
+++ b/src/atop/sort.cpp
@@ -1579,6 +1579,9 @@ struct MERGE_STEP_ONE_CALLBACK {
     // not valid for inplace sorting, otherwise is sizeof(int32) or sizeof(int64) depending on index size
     int64_t TypeSizeOutput;
 
+    // set to nonzero when the first step ran out of memory
+    int64_t Failed = 0;
+
     // used to synchronize parallel merges
     MERGE_SPLITTER  MergeSplitter;
     //int64_t EndPositions[9];
@@ -1812,10 +1815,10 @@ static int64_t ParMergeInPlaceThreadCallback(struct stMATH_WORKER_ITEM* pstWorke
             CopyData(pSrcData + (pFirst * Callback->StridesInput), MergeSize, Callback->StridesInput, Callback->StrLen, pData + (pFirst * itemSizeInput), Callback->TypeSizeOutput);
 
         if (Callback->SortCallbackOne.sortfunc) {
-            Callback->SortCallbackOne.sortfunc(pData + (pFirst * itemSizeInput), MergeSize);
+            if (Callback->SortCallbackOne.sortfunc(pData + (pFirst * itemSizeInput), MergeSize) < 0) AtopInterlockedOr(&Callback->Failed, 1);
         }
         else {
-            Callback->SortCallbackOne.sortstringfunc(pData + (pFirst * itemSizeInput), MergeSize, strLen);
+            if (Callback->SortCallbackOne.sortstringfunc(pData + (pFirst * itemSizeInput), MergeSize, strLen) < 0) AtopInterlockedOr(&Callback->Failed, 1);
         }
 
         if (IsBuddyBitSet(index, &Callback->MergeSplitter.Level[0])) {
@@ -1951,8 +1954,13 @@ par_amergesort(
             int64_t             sizeofT;
             int64_t             sizeofUINDEX;
 
+            // set to nonzero when a partition ran out of memory
+            int64_t             Failed;
+
         } psort;
 
+        psort.Failed = 0;
+
         psort.funcSingleMerge = single_amergesort<T, UINDEX>;
         psort.pCutOffs = pCutOffs;
         psort.cutOffLength = cutOffLength;
@@ -1989,18 +1997,21 @@ par_amergesort(
 
             // shift the data pointers to match the partition
             // call a single threaded merge
-            callbackArg->funcSingleMerge(
+            int result = callbackArg->funcSingleMerge(
                 callbackArg->pValues + (partStart * callbackArg->sizeofT),
                 callbackArg->pToSort + (partStart * callbackArg->sizeofUINDEX),
                 partLength,
                 callbackArg->strlen,
                 callbackArg->sortType);
 
+            if (result < 0) AtopInterlockedOr(&callbackArg->Failed, 1);
+
             return 1;
         };
 
         THREADER->DoMultiThreadedWork((int)cutOffLength, lambdaPSCallback, &psort);
 
+        if (psort.Failed) return -1;
     }
     else {
 
@@ -2182,7 +2193,7 @@ par_sort(
 
         // Free temp memory used
         WORKSPACE_FREE(pWorkSpace);
-        return 0;
+        return stParMergeCallback.Failed ? -1 : 0;
     }
 
     // No threading path
diff --git a/src/pnumpy/sorting.cpp b/src/pnumpy/sorting.cpp
index 859e858..009762e 100644
--- a/src/pnumpy/sorting.cpp
+++ b/src/pnumpy/sorting.cpp
@@ -511,12 +511,17 @@ PyObject* lexsort(PyObject* self, PyObject* args, PyObject* kwargs) {
             // Thus, the last array is the last sort, and therefore determines the primary sort order
             for (UINDEX i = 0; i < mlp.tupleSize; i++) {
                 int atype = dtype_to_atop(mlp.aInfo[i].NumpyDType);
+                int sorted;
                 // For each array...
                 if (sizeof(UINDEX) == 4) {
-                    SortIndex32(pCutOffs, cutOffLength, mlp.aInfo[i].pData, arraySize1, (int32_t*)pDataOut, sortmode, atype, mlp.aInfo[i].ItemSize);
+                    sorted = SortIndex32(pCutOffs, cutOffLength, mlp.aInfo[i].pData, arraySize1, (int32_t*)pDataOut, sortmode, atype, mlp.aInfo[i].ItemSize);
                 }
                 else {
-                    SortIndex64(pCutOffs, cutOffLength, mlp.aInfo[i].pData, arraySize1, (int64_t*)pDataOut, sortmode, atype, mlp.aInfo[i].ItemSize);
+                    sorted = SortIndex64(pCutOffs, cutOffLength, mlp.aInfo[i].pData, arraySize1, (int64_t*)pDataOut, sortmode, atype, mlp.aInfo[i].ItemSize);
+                }
+                if (sorted < 0) {
+                    Py_DECREF(result);
+                    return PyErr_NoMemory();
                 }
             }
 
-- 
2.43.0


From 13b542e75d35ea9e8bf40c4c69c1f9240158a4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:28 +0000
Subject: [PATCH 60/68] fix: lexsort and recarray_to_colmajor wrote through
 NULL when out of memory

---
 src/pnumpy/common.cpp      | 4 ++++
 src/pnumpy/conversions.cpp | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/src/pnumpy/common.cpp b/src/pnumpy/common.cpp
index 1e3d37d..48d9af2 100644
--- a/src/pnumpy/common.cpp
+++ b/src/pnumpy/common.cpp
@@ -645,6 +645,10 @@ ArrayInfo* BuildArrayInfo(
 
     // NOTE: If the list is empty, this will allocate 0 memory (which C99 says can return NULL
     ArrayInfo* aInfo = AllocArrayInfo(tupleSize);
+    if (!aInfo) {
+        PyErr_NoMemory();
+        return NULL;
+    }
 
     int64_t totalItemSize = 0;
 
diff --git a/src/pnumpy/conversions.cpp b/src/pnumpy/conversions.cpp
index 037b3e4..bb96523 100644
--- a/src/pnumpy/conversions.cpp
+++ b/src/pnumpy/conversions.cpp
@@ -77,6 +77,9 @@ recarray_to_colmajor(PyObject* self, PyObject* args) {
 
     // TODO allocate this on the stack
     pstOffset = (stRecarrayOffsets*)WORKSPACE_ALLOC(sizeof(stRecarrayOffsets) * numArrays);
+    if (!pstOffset) {
+        return PyErr_NoMemory();
+    }
 
     for (int64_t i = 0; i < numArrays; i++) {
         // Consider adding pOffsets here
-- 
2.43.0


From 451d7e0bdcb617df5146bd0677e37431c96fa89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:58 +0000
Subject: [PATCH 61/68] fix: running out of memory raised ValueError instead of
 MemoryError

---
 src/pnumpy/getitem.cpp | 12 ++++--------
 src/pnumpy/sorting.cpp |  3 +--
 2 files changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/pnumpy/getitem.cpp b/src/pnumpy/getitem.cpp
index eb504fb..c7f3428 100644
--- a/src/pnumpy/getitem.cpp
+++ b/src/pnumpy/getitem.cpp
@@ -257,8 +257,7 @@ BooleanIndexInternal(
     int64_t    chunks = BooleanCount(aIndex, &pChunkCount);
 
     if (chunks == 0) {
-        PyErr_Format(PyExc_ValueError, "Out of memory");
-        return NULL;
+        return PyErr_NoMemory();
     }
 
     int64_t totalTrue = 0;
@@ -578,7 +577,7 @@ BooleanIndexInternal(
         }
     }  else {
         // ran out of memory
-        PyErr_Format(PyExc_ValueError, "Out of memory");
+        PyErr_NoMemory();
     }
 
     WORKSPACE_FREE(pChunkCount);
@@ -1149,8 +1148,7 @@ getitem(PyObject* self, PyObject* args)
             char* pDefault = (char*)WORKSPACE_ALLOC(aValueItemSize + 32);
             if (!pDefault) {
                 Py_DECREF(outArray);
-                PyErr_Format(PyExc_ValueError, "GetItem ran out of memory %d %d", numpyValuesType, numpyIndexType);
-                return NULL;
+                return PyErr_NoMemory();
             }
             memset(pDefault, 0, aValueItemSize + 32);
             if (numpyValuesType == NPY_LONGDOUBLE) {
@@ -1231,9 +1229,7 @@ getitem(PyObject* self, PyObject* args)
             WORKSPACE_FREE(pDefault);
             return (PyObject*)outArray;
         }
-        PyErr_Format(PyExc_ValueError, "GetItem ran out of memory %d %d", numpyValuesType, numpyIndexType);
-        return NULL;
-
+        return PyErr_NoMemory();
     }
 
     PyErr_Format(PyExc_ValueError, "Dont know how to convert these types %d %d", numpyValuesType, numpyIndexType);
diff --git a/src/pnumpy/sorting.cpp b/src/pnumpy/sorting.cpp
index 009762e..5483c28 100644
--- a/src/pnumpy/sorting.cpp
+++ b/src/pnumpy/sorting.cpp
@@ -618,8 +618,7 @@ extern "C" PyObject* sort(PyObject* self, PyObject* args, PyObject* kwargs) {
         }
     }
 
-    PyErr_Format(PyExc_ValueError, "Sort: out of memory or cannot sort");
-    return NULL;
+    return PyErr_NoMemory();
 
 }
 
-- 
2.43.0


From 9650f7b3b640714fd30199eabb209481be605ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:01 +0000
Subject: [PATCH 62/68] fix: lexsort and sort ignored their keywords when these
 could not be looked up

---
 src/pnumpy/sorting.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/pnumpy/sorting.cpp b/src/pnumpy/sorting.cpp
index 5483c28..be0b08a 100644
--- a/src/pnumpy/sorting.cpp
+++ b/src/pnumpy/sorting.cpp
@@ -164,8 +164,14 @@ PyObject* is_sorted(PyObject* self, PyObject* args) {
 // Return NULL on failure
 static PyObject* GetKwarg(PyTypeObject* pType, PyObject* kwargs, const char* name) {
     if (kwargs && PyDict_Check(kwargs)) {
+        // An error looking up the name is left set (PyDict_GetItemString would hide it)
+        PyObject* key = PyUnicode_FromString(name);
+        if (!key) {
+            return NULL;
+        }
         // Borrows a reference
-        PyObject* object=PyDict_GetItemString(kwargs, name);
+        PyObject* object = PyDict_GetItemWithError(kwargs, key);
+        Py_DECREF(key);
         if (object) {
             if (PyObject_TypeCheck(object, pType))
                 return object;
@@ -255,9 +261,9 @@ static PyArrayObject* GetKwargIndex(PyObject* kwargs, int64_t& indexLength, int&
         PyArrayObject* pStartIndex = NULL;
         // Borrowed reference
         // Returns NULL if key not present
-        pStartIndex = (PyArrayObject*)PyDict_GetItemString(kwargs, "index");
+        pStartIndex = (PyArrayObject*)GetKwarg(pPyArray_Type, kwargs, "index");
 
-        if (pStartIndex != NULL && PyArray_Check(pStartIndex)) {
+        if (pStartIndex != NULL) {
             indexLength = ArrayLength(pStartIndex);
 
             // The values are sorted in place
@@ -433,6 +439,11 @@ PyObject* lexsort(PyObject* self, PyObject* args, PyObject* kwargs) {
 
         PyArrayObject* result = NULL;
 
+        // Could a keyword not be looked up?
+        if (PyErr_Occurred()) {
+            return NULL;
+        }
+
         if (indexLength == -1) {
             PyErr_Format(PyExc_ValueError, "LexSort 'index' must be an array of type int64_t or int32_t");
             return NULL;
@@ -607,6 +618,10 @@ extern "C" PyObject* sort(PyObject* self, PyObject* args, PyObject* kwargs) {
         // -1 indictes an error
         //SORT_MODE sortmode = SORT_MODE::SORT_MODE_MERGE;
         SORT_MODE sortmode = (SORT_MODE)GetKind(kwargs, SORT_MODE_QSORT);
+        if (PyErr_Occurred()) {
+            Py_DECREF(outArrValues);
+            return NULL;
+        }
         int result=
         Sort(sortmode, atype, PyArray_BYTES(inArrValues), ArrayLength(inArrValues), strideValue, PyArray_ITEMSIZE(inArrValues), PyArray_BYTES(outArrValues), PyArray_ITEMSIZE(outArrValues) );
 
-- 
2.43.0


From e04abd5ad52cf387914c7c7857d4c6ab014d4499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:41 +0000
Subject: [PATCH 63/68] fix: copying a non-contiguous array replaced numpy's
 MemoryError by a ValueError

---
 src/pnumpy/common.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pnumpy/common.cpp b/src/pnumpy/common.cpp
index 48d9af2..b2fc52b 100644
--- a/src/pnumpy/common.cpp
+++ b/src/pnumpy/common.cpp
@@ -597,7 +597,10 @@ PyArrayObject* EnsureContiguousArray(PyArrayObject* inObject) {
         // Have to make a copy (which needs to be deleted later)
         inObject = (PyArrayObject*)PyArray_FromAny((PyObject*)inObject, NULL, 0, 0, NPY_ARRAY_ENSURECOPY, NULL);
         if (!inObject) {
-            PyErr_Format(PyExc_ValueError, "RipTide: Error converting non-contiguous array");
+            // keep the error which numpy raised (for example out of memory)
+            if (!PyErr_Occurred()) {
+                PyErr_Format(PyExc_ValueError, "RipTide: Error converting non-contiguous array");
+            }
             return NULL;
         }
     }
-- 
2.43.0


From 4dab30bb366fcd9364bd346db7ce6463cd8ec937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:15 +0000
Subject: [PATCH 64/68] fix: pn.lexsort fell back to numpy's lexsort (another
 dtype, other arguments) when out of memory

---
 src/pnumpy/sort.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pnumpy/sort.py b/src/pnumpy/sort.py
index d25d47d..d485d3e 100644
--- a/src/pnumpy/sort.py
+++ b/src/pnumpy/sort.py
@@ -284,6 +284,8 @@ def lexsort(*args, **kwargs):
 
     try:
         return lexsort32(*args, **kwargs)
+    except MemoryError:
+        raise
     except Exception:
         return np.lexsort(*args, **kwargs)
 
-- 
2.43.0


From 2b4b67ba298674c0767e6acdb37dfddb8a5c963a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:15 +0000
Subject: [PATCH 65/68] fix: getitem, atop_info and atop_setworkers crashed or
 raised SystemError when out of memory

---
 src/pnumpy/_pnumpy.cpp | 15 +++++++++++----
 src/pnumpy/common.cpp  |  2 +-
 src/pnumpy/getitem.cpp |  5 +++++
 3 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/pnumpy/_pnumpy.cpp b/src/pnumpy/_pnumpy.cpp
index 4240935..c8ed47d 100644
--- a/src/pnumpy/_pnumpy.cpp
+++ b/src/pnumpy/_pnumpy.cpp
@@ -1334,12 +1334,13 @@ void AddToDict(const char* ufunc_name, int dtype, void* pstUFunc) {
 stUFunc* GetFromDict(const char* ufunc_name, int dtype) {
     // Create a tuple pair of ufuncname/dtype
     if (gpUnaryDict) {
-        PyObject* pTuple = PyTuple_New(2);
-        PyTuple_SetItem(pTuple, 0, PyUnicode_FromString(ufunc_name));
-        PyTuple_SetItem(pTuple, 1, PyLong_FromLong(dtype));
+        PyObject* pTuple = Py_BuildValue("(si)", ufunc_name, dtype);
+        if (!pTuple) {
+            return NULL;
+        }
 
         // borrows a reference
-        PyObject* pAnswer=PyDict_GetItem(gpUnaryDict, pTuple);
+        PyObject* pAnswer=PyDict_GetItemWithError(gpUnaryDict, pTuple);
         Py_DecRef(pTuple);
         if (pAnswer) {
             return (stUFunc*)PyLong_AsLongLong(pAnswer);
@@ -1893,6 +1894,9 @@ PyObject * atop_info(PyObject * self, PyObject * args) {
                 "pReduceFunc", (long long)(pstUFunc->pReduceFunc),
                 "pUnaryFunc", (long long)(pstUFunc->pUnaryFunc));
         }
+        if (PyErr_Occurred()) {
+            return NULL;
+        }
 
     }
     RETURN_FALSE;
@@ -1921,6 +1925,9 @@ PyObject * atop_setworkers(PyObject * self, PyObject * args) {
                 return PyLong_FromLong(prevVal);
             }
         }
+        else if (PyErr_Occurred()) {
+            return NULL;
+        }
 
     }
     RETURN_FALSE;
diff --git a/src/pnumpy/common.cpp b/src/pnumpy/common.cpp
index b2fc52b..aae7997 100644
--- a/src/pnumpy/common.cpp
+++ b/src/pnumpy/common.cpp
@@ -433,7 +433,7 @@ BOOL ConvertScalarObject(PyObject* inObject1,  void* pDestVoid, int16_t numpyOut
             *pItemSize = PyUnicode_GET_SIZE(inObject1) * 4;
             // memory leak needs to be deleted
             *ppDataIn = PyUnicode_AsUCS4Copy(inObject1);
-            return TRUE;
+            return *ppDataIn != NULL;
         }
         else if (PyArray_IsScalar(inObject1, Generic)) {
 
diff --git a/src/pnumpy/getitem.cpp b/src/pnumpy/getitem.cpp
index c7f3428..56ee7fe 100644
--- a/src/pnumpy/getitem.cpp
+++ b/src/pnumpy/getitem.cpp
@@ -1185,6 +1185,11 @@ getitem(PyObject* self, PyObject* args)
                         }
                     }
                 }
+                else if (PyErr_Occurred()) {
+                    WORKSPACE_FREE(pDefault);
+                    Py_DECREF(outArray);
+                    return NULL;
+                }
             }
 
             stMATH_WORKER_ITEM* pWorkItem = THREADER ? THREADER->GetWorkItem(aIndexLength) : NULL;
-- 
2.43.0


From 291ed3e4a97afa943d85d99df544837b8fb58e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:36 +0000
Subject: [PATCH 66/68] fix: the hook of __getitem__ crashed for objects,
 flattened masks of other shapes and dropped subclasses

---
 src/pnumpy/_pnumpy.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/pnumpy/_pnumpy.cpp b/src/pnumpy/_pnumpy.cpp
index c8ed47d..6aa1090 100644
--- a/src/pnumpy/_pnumpy.cpp
+++ b/src/pnumpy/_pnumpy.cpp
@@ -1764,20 +1764,24 @@ PyObject* newinit(PyObject* self, PyObject* args, PyObject* kwargs) {
 extern "C"
 PyObject * GetItemHook(PyObject* aValues, PyObject* aIndex) {
 
-    // Quick check for an array or we bail
-    if (PyType_IsSubtype(aIndex->ob_type, &PyArray_Type)) {
+    // Quick check for arrays or we bail, subclasses have a result of their own
+    if (PyArray_CheckExact(aValues) && PyArray_CheckExact(aIndex)) {
         int32_t numpyValuesType = PyArray_TYPE((PyArrayObject*)aValues);
         int32_t numpyIndexType = PyArray_TYPE((PyArrayObject*)aIndex);
 
         PyObject* result = NULL;
         if (numpyIndexType == NPY_BOOL) {
-            // special path for boolean
-            result = BooleanIndexInternal((PyArrayObject*)aValues, (PyArrayObject*)aIndex);
-            if (result) {
-                return result;
+            // special path for boolean: a mask of the same shape, and items without reference counts
+            if (PyArray_NDIM((PyArrayObject*)aValues) > 0 &&
+                PyArray_SAMESHAPE((PyArrayObject*)aValues, (PyArrayObject*)aIndex) &&
+                !PyDataType_REFCHK(PyArray_DESCR((PyArrayObject*)aValues))) {
+                result = BooleanIndexInternal((PyArrayObject*)aValues, (PyArrayObject*)aIndex);
+                if (result) {
+                    return result;
+                }
+                // clear error since punting
+                PyErr_Clear();
             }
-            // clear error since punting
-            PyErr_Clear();
 
         } else
         // TODO: improve this to handle strings/unicode/datetime/other
-- 
2.43.0


From 0776a7a4e8056dfbdb5dba7d6bab370bdd43c2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:36 +0000
Subject: [PATCH 67/68] fix: getitem ignored the default given for half, long
 double, complex and datetime arrays

---
 src/pnumpy/getitem.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/pnumpy/getitem.cpp b/src/pnumpy/getitem.cpp
index 56ee7fe..7845acd 100644
--- a/src/pnumpy/getitem.cpp
+++ b/src/pnumpy/getitem.cpp
@@ -1163,6 +1163,16 @@ getitem(PyObject* self, PyObject* args)
                 alignas(32) char tempDefault[128];
                 int64_t itemSize = 0;
                 void* pTempData = NULL;
+                if (numpyValuesType == NPY_HALF || numpyValuesType == NPY_LONGDOUBLE ||
+                    PyTypeNum_ISCOMPLEX(numpyValuesType) || PyTypeNum_ISDATETIME(numpyValuesType)) {
+                    // ConvertScalarObject does not know these: numpy does
+                    if (PyArray_SETITEM(aValues, pDefault, defaultValue) < 0) {
+                        WORKSPACE_FREE(pDefault);
+                        Py_DECREF(outArray);
+                        return NULL;
+                    }
+                }
+                else
                 // Try to convert the scalar
                 if (ConvertScalarObject(defaultValue, &tempDefault, numpyValuesType, &pTempData, &itemSize)) {
                     // Assign the new default for out of range indexes
-- 
2.43.0


From 0e3ee855009e76878c288a1d9fa88e7a43a93b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:52:33 +0000
Subject: [PATCH 68/68] fix: lexsort32 crashed for more rows than a 32 bit
 index can number

---
 src/pnumpy/sorting.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pnumpy/sorting.cpp b/src/pnumpy/sorting.cpp
index be0b08a..496d742 100644
--- a/src/pnumpy/sorting.cpp
+++ b/src/pnumpy/sorting.cpp
@@ -392,6 +392,11 @@ PyObject* lexsort(PyObject* self, PyObject* args, PyObject* kwargs) {
     if (mlp.aInfo && mlp.tupleSize > 0 && !PyErr_Occurred()) {
         int64_t    arraySize1 = mlp.totalRows;
 
+        if (sizeof(UINDEX) == sizeof(int32_t) && arraySize1 > INT32_MAX) {
+            PyErr_Format(PyExc_ValueError, "LexSort with a 32 bit index cannot sort %lld rows, use lexsort64", arraySize1);
+            return NULL;
+        }
+
         int64_t    cutOffLength = 0;
         int64_t* pCutOffs = GetCutOffs(kwargs, cutOffLength);
         SORT_MODE sortmode = (SORT_MODE)GetKind(kwargs, SORT_MODE_MERGE);
-- 
2.43.0

