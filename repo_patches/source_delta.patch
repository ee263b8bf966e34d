From 591fdd2a9e6d70689edce31f4c316a28887a2d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:42 +0000
Subject: [PATCH 01/21] fix: AVX greater/greater_equal comparisons are false
 for NaN operands

---
 vec/vec_avx_double.hpp | 8 ++++----
 vec/vec_avx_float.hpp  | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/vec/vec_avx_double.hpp b/vec/vec_avx_double.hpp
index 29c6faa..89f168e 100644
--- a/vec/vec_avx_double.hpp
+++ b/vec/vec_avx_double.hpp
@@ -243,8 +243,8 @@ public:
 
     RELATIONAL_OPERATOR(<, _CMP_LT_OS)
     RELATIONAL_OPERATOR(<=, _CMP_LE_OS)
-    RELATIONAL_OPERATOR(>, _CMP_NLE_US)
-    RELATIONAL_OPERATOR(>=, _CMP_NLT_US)
+    RELATIONAL_OPERATOR(>, _CMP_GT_OS)
+    RELATIONAL_OPERATOR(>=, _CMP_GE_OS)
     RELATIONAL_OPERATOR(==, _CMP_EQ_OQ)
     RELATIONAL_OPERATOR(!=, _CMP_NEQ_UQ)
 
@@ -272,8 +272,8 @@ public:
 
     RELATIONAL_MASK_OPERATOR(lt, _CMP_LT_OS)
     RELATIONAL_MASK_OPERATOR(le, _CMP_LE_OS)
-    RELATIONAL_MASK_OPERATOR(gt, _CMP_NLE_US)
-    RELATIONAL_MASK_OPERATOR(ge, _CMP_NLT_US)
+    RELATIONAL_MASK_OPERATOR(gt, _CMP_GT_OS)
+    RELATIONAL_MASK_OPERATOR(ge, _CMP_GE_OS)
     RELATIONAL_MASK_OPERATOR(eq, _CMP_EQ_OQ)
     RELATIONAL_MASK_OPERATOR(neq, _CMP_NEQ_UQ)
 
diff --git a/vec/vec_avx_float.hpp b/vec/vec_avx_float.hpp
index 350ace8..83d012c 100644
--- a/vec/vec_avx_float.hpp
+++ b/vec/vec_avx_float.hpp
@@ -284,8 +284,8 @@ public:
 
     RELATIONAL_OPERATOR(<, _CMP_LT_OS)
     RELATIONAL_OPERATOR(<=, _CMP_LE_OS)
-    RELATIONAL_OPERATOR(>, _CMP_NLE_US)
-    RELATIONAL_OPERATOR(>=, _CMP_NLT_US)
+    RELATIONAL_OPERATOR(>, _CMP_GT_OS)
+    RELATIONAL_OPERATOR(>=, _CMP_GE_OS)
     RELATIONAL_OPERATOR(==, _CMP_EQ_OQ)
     RELATIONAL_OPERATOR(!=, _CMP_NEQ_UQ)
 #undef RELATIONAL_OPERATOR
@@ -316,8 +316,8 @@ public:
 
     RELATIONAL_MASK_OPERATOR(lt, _CMP_LT_OS)
     RELATIONAL_MASK_OPERATOR(le, _CMP_LE_OS)
-    RELATIONAL_MASK_OPERATOR(gt, _CMP_NLE_US)
-    RELATIONAL_MASK_OPERATOR(ge, _CMP_NLT_US)
+    RELATIONAL_MASK_OPERATOR(gt, _CMP_GT_OS)
+    RELATIONAL_MASK_OPERATOR(ge, _CMP_GE_OS)
     RELATIONAL_MASK_OPERATOR(eq, _CMP_EQ_OQ)
     RELATIONAL_MASK_OPERATOR(neq, _CMP_NEQ_UQ)
 
-- 
2.43.0


From 149ccd38d122e2c7e371b743bfd3a813f89ef8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:20 +0000
Subject: [PATCH 02/21] fix: horizontal min/max reductions start from
 +/-infinity

---
 simd_horizontal_functions.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/simd_horizontal_functions.hpp b/simd_horizontal_functions.hpp
index 326fe40..183b7b9 100644
--- a/simd_horizontal_functions.hpp
+++ b/simd_horizontal_functions.hpp
@@ -36,7 +36,7 @@ namespace nova {
 template <typename F>
 inline F horizontal_max_vec(const F * in, unsigned int n)
 {
-    F current = std::numeric_limits<F>::min();
+    F current = -std::numeric_limits<F>::infinity();
     using namespace std;
 
     do {
@@ -49,7 +49,7 @@ inline F horizontal_max_vec(const F * in, unsigned int n)
 template <typename F>
 inline F horizontal_max_vec_simd(const F * in, unsigned int n)
 {
-    F init = std::numeric_limits<F>::min();
+    F init = -std::numeric_limits<F>::infinity();
     vec<F> current(init);
 
     /* loop */
@@ -71,7 +71,7 @@ inline F horizontal_max_vec_simd(const F * in, unsigned int n)
 template <typename F>
 inline F horizontal_min_vec(const F * in, unsigned int n)
 {
-    F current = std::numeric_limits<F>::min();
+    F current = std::numeric_limits<F>::infinity();
     using namespace std;
 
     do {
@@ -84,7 +84,7 @@ inline F horizontal_min_vec(const F * in, unsigned int n)
 template <typename F>
 inline F horizontal_min_vec_simd(const F * in, unsigned int n)
 {
-    F init = std::numeric_limits<F>::min();
+    F init = std::numeric_limits<F>::infinity();
     vec<F> current(init);
 
     /* loop */
@@ -139,8 +139,8 @@ inline F horizontal_sum_vec_simd(const F * in, unsigned int n)
 template <typename F>
 inline void horizontal_minmax_vec(F & rmin, F & rmax, const F * in, unsigned int n)
 {
-    F current_max = std::numeric_limits<F>::min();
-    F current_min = std::numeric_limits<F>::max();
+    F current_max = -std::numeric_limits<F>::infinity();
+    F current_min = std::numeric_limits<F>::infinity();
     using namespace std;
 
     do {
@@ -155,8 +155,8 @@ inline void horizontal_minmax_vec(F & rmin, F & rmax, const F * in, unsigned int
 template <typename F>
 inline void horizontal_minmax_vec_simd(F & rmin, F & rmax, const F * in, unsigned int n)
 {
-    vec<F> current_max(std::numeric_limits<F>::min());
-    vec<F> current_min(std::numeric_limits<F>::max());
+    vec<F> current_max(-std::numeric_limits<F>::infinity());
+    vec<F> current_min(std::numeric_limits<F>::infinity());
 
     /* loop */
     const size_t vec_size = vec<F>::size;
@@ -178,7 +178,7 @@ inline void horizontal_minmax_vec_simd(F & rmin, F & rmax, const F * in, unsigne
 template <typename F>
 inline void horizontal_maxsum_vec(F & rmax, F & rsum, const F * in, unsigned int n)
 {
-    F current_max = std::numeric_limits<F>::min();
+    F current_max = -std::numeric_limits<F>::infinity();
     F current_sum = 0;
     using namespace std;
 
@@ -194,7 +194,7 @@ inline void horizontal_maxsum_vec(F & rmax, F & rsum, const F * in, unsigned int
 template <typename F>
 inline void horizontal_maxsum_vec_simd(F & rmax, F & rsum, const F * in, unsigned int n)
 {
-    vec<F> current_max(std::numeric_limits<F>::min());
+    vec<F> current_max(-std::numeric_limits<F>::infinity());
     vec<F> current_sum(F(0));
 
     /* loop */
-- 
2.43.0


From 63c275b2c3fa715ebe9c5b50e7ea1fa55a1e504b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:42 +0000
Subject: [PATCH 03/21] fix: simd copy functions do not read beyond the end of
 the source

---
 simd_memory.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/simd_memory.hpp b/simd_memory.hpp
index ca5430b..e10a25e 100644
--- a/simd_memory.hpp
+++ b/simd_memory.hpp
@@ -295,10 +295,12 @@ struct copyvec
     {
         vec<F> val;
 
-        if (src_aligned)
-            val.load_aligned(src);
-        else
-            val.load(src);
+        if (n != offset) { /* the last iteration must not read beyond the end of src */
+            if (src_aligned)
+                val.load_aligned(src);
+            else
+                val.load(src);
+        }
 
         store_aligned<dst_aligned>(loaded_value, dst);
         copyvec<F, src_aligned, dst_aligned, n-offset>::mp_iteration(dst+offset, src+offset, val);
-- 
2.43.0


From 8d3ea64f3f9e11cbc3cbf7375d8075bf57d485ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:50 +0000
Subject: [PATCH 04/21] fix: ramp arguments keep their slope in the argument's
 precision

---
 detail/wrap_argument_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/detail/wrap_argument_vector.hpp b/detail/wrap_argument_vector.hpp
index 399dec2..0b1dc47 100644
--- a/detail/wrap_argument_vector.hpp
+++ b/detail/wrap_argument_vector.hpp
@@ -91,7 +91,7 @@ struct vector_ramp_argument
 {
     always_inline vector_ramp_argument(FloatType const & base, FloatType const & slope)
     {
-        float vSlope = data.set_slope(base, slope);
+        FloatType vSlope = data.set_slope(base, slope);
         slope_.set_vec(vSlope);
     }
 
-- 
2.43.0


From cedb2998f5ed2e0af12950904b61906afcc16896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:22 +0000
Subject: [PATCH 05/21] fix: scalar trunc handles values beyond the range of
 long

---
 detail/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/detail/math.hpp b/detail/math.hpp
index 6dca81e..241e18f 100644
--- a/detail/math.hpp
+++ b/detail/math.hpp
@@ -294,7 +294,7 @@ inline double log2(double arg)
 template<typename float_type>
 inline float_type trunc(float_type const & arg)
 {
-    return (float_type)(long)arg;
+    return (arg < 0) ? std::ceil(arg) : std::floor(arg);
 }
 
 
-- 
2.43.0


From 5653ad565eeb79616e59b6cc26161efbd11670e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:56 +0000
Subject: [PATCH 06/21] fix: vec_round_float returns values from 2**23 on
 unchanged

---
 detail/vec_math.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/detail/vec_math.hpp b/detail/vec_math.hpp
index faf6be8..93da072 100644
--- a/detail/vec_math.hpp
+++ b/detail/vec_math.hpp
@@ -61,7 +61,8 @@ always_inline VecType vec_round_float(VecType const & arg)
     const vec two_to_23_ps (0x1.0p23f);
     const vec rounded = (abs_arg + two_to_23_ps) - two_to_23_ps;
 
-    return sign ^ rounded;
+    /* values from 2**23 on do not have any fractional bits */
+    return select(arg, sign ^ rounded, mask_lt(abs_arg, two_to_23_ps));
 }
 
 template <typename VecType>
-- 
2.43.0


From b2891b7dfd79f98ff31b0ce7d764b14e1dc71603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:16 +0000
Subject: [PATCH 07/21] fix: addvec functions with a slope compile

---
 simd_memory.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simd_memory.hpp b/simd_memory.hpp
index e10a25e..1ea6290 100644
--- a/simd_memory.hpp
+++ b/simd_memory.hpp
@@ -370,7 +370,7 @@ inline void addvec(F * out, const F in, unsigned int n)
 }
 
 template <typename F>
-inline void addvec(F * out, const F in, const F slope, unsigned int n)
+inline void addvec(F * out, F in, const F slope, unsigned int n)
 {
     do {
         *out++ += in; in += slope;
@@ -462,7 +462,7 @@ inline void addvec_simd(F * out, const F in, const F slope, unsigned int n)
 {
     const int per_loop = vec<F>::objects_per_cacheline;
     vec<F> vin; vin.set_slope(in, slope);
-    vec<F> vslope; vslope.set(slope * vec<F>::size);
+    vec<F> vslope; vslope.set_vec(slope * vec<F>::size);
     n /= per_loop;
     do
     {
@@ -489,7 +489,7 @@ template <unsigned int n, typename F>
 inline void addvec_simd(F * out, const F in, const F slope)
 {
     vec<F> vin; vin.set_slope(in, slope);
-    vec<F> vslope; vslope.set(slope * vec<F>::size);
+    vec<F> vslope; vslope.set_vec(slope * vec<F>::size);
     detail::addvec<F, n>::mp_iteration(out, vin, vslope);
 }
 
-- 
2.43.0


From dcaa35df834e5e1dbb6787990b995af78207fbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:10 +0000
Subject: [PATCH 08/21] fix: acos(-0.5) in the single precision simd version

---
 detail/vec_math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/detail/vec_math.hpp b/detail/vec_math.hpp
index 93da072..a2c6f96 100644
--- a/detail/vec_math.hpp
+++ b/detail/vec_math.hpp
@@ -434,7 +434,7 @@ always_inline VecType vec_acos_float(VecType const & arg)
     VecType ret_05_1 = two_asin;
 
     VecType ret_m05_1 = select(ret_m05_05, ret_05_1, mask_gt(arg, half));
-    VecType ret = select(ret_m1_m05, ret_m05_1, mask_gt(arg, -0.5));
+    VecType ret = select(ret_m1_m05, ret_m05_1, mask_ge(arg, -0.5));
 
     // |arg| > 1: return 0
     ret = select(ret, zero, mask_gt(abs_arg, one));
-- 
2.43.0


From efe9cea7bd2e1a691ded233cd5884b1080e03d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:49 +0000
Subject: [PATCH 09/21] fix: AVX load_first clears the upper half of the vector

---
 vec/vec_avx_double.hpp | 3 +--
 vec/vec_avx_float.hpp  | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/vec/vec_avx_double.hpp b/vec/vec_avx_double.hpp
index 89f168e..ab795af 100644
--- a/vec/vec_avx_double.hpp
+++ b/vec/vec_avx_double.hpp
@@ -141,8 +141,7 @@ public:
 
     void load_first(const double * data)
     {
-        clear();
-        data_ = _mm256_castpd128_pd256(_mm_load_sd(data));
+        data_ = _mm256_insertf128_pd(gen_zero(), _mm_load_sd(data), 0);
     }
 
     void store(double * dest) const
diff --git a/vec/vec_avx_float.hpp b/vec/vec_avx_float.hpp
index 83d012c..eef17e2 100644
--- a/vec/vec_avx_float.hpp
+++ b/vec/vec_avx_float.hpp
@@ -147,8 +147,7 @@ public:
 
     void load_first(const float * data)
     {
-        clear();
-        data_ = _mm256_castps128_ps256(_mm_load_ss(data));
+        data_ = _mm256_insertf128_ps(gen_zero(), _mm_load_ss(data), 0);
     }
 
     void store(float * dest) const
-- 
2.43.0


From c99527f9ddc917c73403abe8129a258bf58893d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:34 +0000
Subject: [PATCH 10/21] fix: simd peak meters handle every multiple of
 samples_per_loop

---
 simd_peakmeter.hpp | 32 ++++++++++----------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/simd_peakmeter.hpp b/simd_peakmeter.hpp
index 4cfba27..899ba47 100644
--- a/simd_peakmeter.hpp
+++ b/simd_peakmeter.hpp
@@ -54,27 +54,22 @@ inline F peak_vec(const F * in, F * peak, unsigned int n)
 template <typename F>
 inline F peak_vec_simd(const F * in, F * peak, unsigned int n)
 {
-    vec<F> maximum, abs3;
+    vec<F> maximum, abs1;
     maximum.load_first(peak);
 
     /* loop */
     const size_t vec_size = vec<F>::size;
-    const size_t unroll = 4 * vec_size;
+    const size_t unroll = 2 * vec_size; /* divides vec<F>::objects_per_cacheline */
     n /= unroll;
     do {
-        vec<F> in0, in1, in2, in3;
+        vec<F> in0, in1;
         in0.load_aligned(in);
         in1.load_aligned(in+vec_size);
-        in2.load_aligned(in+2*vec_size);
-        in3.load_aligned(in+3*vec_size);
 
         vec<F> abs0 = abs(in0);
-        vec<F> abs1 = abs(in1);
-        vec<F> abs2 = abs(in2);
-        abs3 = abs(in3);
+        abs1 = abs(in1);
 
-        vec<F> local_max = max_(max_(abs0, abs1),
-                               max_(abs2, abs3));
+        vec<F> local_max = max_(abs0, abs1);
 
         maximum = max_(maximum, local_max);
         in += unroll;
@@ -84,7 +79,7 @@ inline F peak_vec_simd(const F * in, F * peak, unsigned int n)
     *peak = maximum.horizontal_max();
 
     /* return absolute of last sample */
-    return abs3.get(vec<F>::size - 1);
+    return abs1.get(vec<F>::size - 1);
 }
 
 /* updates peak and squared sum */
@@ -117,29 +112,22 @@ inline void peak_rms_vec_simd(const F * in, F * peak, F * squared_sum, unsigned
 
     /* loop */
     const size_t vec_size = vec<F>::size;
-    const size_t unroll = 4 * vec_size;
+    const size_t unroll = 2 * vec_size; /* divides vec<F>::objects_per_cacheline */
     n /= unroll;
     do {
-        vec<F> in0, in1, in2, in3;
+        vec<F> in0, in1;
         in0.load_aligned(in);
         in1.load_aligned(in+vec_size);
-        in2.load_aligned(in+2*vec_size);
-        in3.load_aligned(in+3*vec_size);
 
         vec<F> abs0 = abs(in0);
         vec<F> sqr0 = square(in0);
         vec<F> abs1 = abs(in1);
         vec<F> sqr1 = square(in1);
-        vec<F> abs2 = abs(in2);
-        vec<F> sqr2 = square(in2);
-        vec<F> abs3 = abs(in3);
-        vec<F> sqr3 = square(in3);
 
-        vec<F> local_max = max_(max_(abs0, abs1),
-                                max_(abs2, abs3));
+        vec<F> local_max = max_(abs0, abs1);
         maximum = max_(maximum, local_max);
 
-        local_squared_sum += sqr0 + sqr1 + sqr2 + sqr3;
+        local_squared_sum += sqr0 + sqr1;
 
         in += unroll;
     } while(--n);
-- 
2.43.0


From 10875bdee1d73fb32242f4f81ff7d6a8e1fd5053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:22 +0000
Subject: [PATCH 11/21] fix: simd_utils horizontal_min/max take all four lanes
 into account

---
 simd_utils.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simd_utils.hpp b/simd_utils.hpp
index c2d008b..75e7533 100644
--- a/simd_utils.hpp
+++ b/simd_utils.hpp
@@ -118,7 +118,7 @@ inline float horizontal_min(__m128 args)
 {
     __m128 xmm0, xmm1;
     xmm0 = args;
-    xmm1 = _mm_shuffle_ps(xmm0, xmm0, _MM_SHUFFLE(2,2,2,2));
+    xmm1 = _mm_shuffle_ps(xmm0, xmm0, _MM_SHUFFLE(3,2,3,2));
     xmm0 = _mm_min_ps(xmm0, xmm1);
     xmm1 = _mm_shuffle_ps(xmm0, xmm0, _MM_SHUFFLE(1,1,1,1));
     xmm0 = _mm_min_ss(xmm0, xmm1);
@@ -129,7 +129,7 @@ inline float horizontal_max(__m128 args)
 {
     __m128 xmm0, xmm1;
     xmm0 = args;
-    xmm1 = _mm_shuffle_ps(xmm0, xmm0, _MM_SHUFFLE(2,2,2,2));
+    xmm1 = _mm_shuffle_ps(xmm0, xmm0, _MM_SHUFFLE(3,2,3,2));
     xmm0 = _mm_max_ps(xmm0, xmm1);
     xmm1 = _mm_shuffle_ps(xmm0, xmm0, _MM_SHUFFLE(1,1,1,1));
     xmm0 = _mm_max_ss(xmm0, xmm1);
-- 
2.43.0


From e4c8bf94918e8abb322f873e0b4f85d6b051f766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:01 +0000
Subject: [PATCH 12/21] fix: exp at the overflow boundary saturates instead of
 returning NaN

---
 detail/vec_math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/detail/vec_math.hpp b/detail/vec_math.hpp
index a2c6f96..70d1148 100644
--- a/detail/vec_math.hpp
+++ b/detail/vec_math.hpp
@@ -155,7 +155,7 @@ always_inline VecType vec_exp_float(VecType const & arg)
     const VecType max_float(std::numeric_limits<float>::max());
     const VecType zero = VecType::gen_zero();
 
-    VecType too_large = mask_gt(arg, maxlogf);
+    VecType too_large = mask_ge(arg, maxlogf);
     VecType too_small = mask_lt(arg, minlogf);
 
     VecType ret = select(approx, max_float, too_large);
-- 
2.43.0


From e7455f1a412759ceeaf79a276ebb109cc87f8ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:26 +0000
Subject: [PATCH 13/21] fix: generic vec::is_aligned tests the alignment of its
 own element type

---
 vec/vec_generic.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vec/vec_generic.hpp b/vec/vec_generic.hpp
index e59cc9e..e6d28ca 100644
--- a/vec/vec_generic.hpp
+++ b/vec/vec_generic.hpp
@@ -104,7 +104,7 @@ public:
 
     static bool is_aligned(FloatType * ptr)
     {
-        return ((intptr_t)(ptr) & (intptr_t)(sizeof(float) - 1)) == 0;
+        return ((intptr_t)(ptr) & (intptr_t)(sizeof(FloatType) - 1)) == 0;
     }
 
     static vec gen_zero()
-- 
2.43.0


From 63ec875324a7b9e6cf61d1bb8b93344087d95959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:45 +0000
Subject: [PATCH 14/21] fix: log2 of doubles has double precision when compiled
 as C++98

---
 detail/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/detail/math.hpp b/detail/math.hpp
index 241e18f..425fd88 100644
--- a/detail/math.hpp
+++ b/detail/math.hpp
@@ -268,7 +268,7 @@ inline float_type log2(float_type arg)
 #if __cplusplus >= 201103L
     return std::log2(arg);
 #else
-    const float rlog2 = 1.f/std::log(2.f);
+    const float_type rlog2 = float_type(1)/std::log(float_type(2));
     return std::log(arg) * rlog2;
 #endif
 }
-- 
2.43.0


From a58e00f3ff5f8bd3e095af703210aa54e9bd1b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:45 +0000
Subject: [PATCH 15/21] fix: generic round fallback returns the nearest integer
 for every argument

---
 detail/math.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/detail/math.hpp b/detail/math.hpp
index 425fd88..821ebc1 100644
--- a/detail/math.hpp
+++ b/detail/math.hpp
@@ -237,7 +237,9 @@ inline float_type max(float_type const & x, float_type const & y)
 template<typename float_type>
 inline float_type round(float_type const & arg)
 {
-    return std::floor(arg + float_type(0.5));
+    /* arg + 0.5 may not be representable */
+    const float_type floored = std::floor(arg);
+    return (arg - floored >= float_type(0.5)) ? floored + float_type(1) : floored;
 }
 
 #ifndef _MSC_VER // Fabian Aussems: visual c++ does not have round
-- 
2.43.0


From d47493ebef1707dcf799e40815a08652e5c28dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:00 +0000
Subject: [PATCH 16/21] fix: NEON select and andnot had their operands swapped

The other vector classes return rhs where the mask of select is set and
complement the first operand of andnot; round, floor, ceil and undenormalize
rely on it.
---
 vec/vec_neon.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/vec/vec_neon.hpp b/vec/vec_neon.hpp
index 05460b0..ff3700a 100644
--- a/vec/vec_neon.hpp
+++ b/vec/vec_neon.hpp
@@ -339,8 +339,8 @@ public:
 
     friend inline vec andnot(vec const & lhs, vec const & rhs)
     {
-        return  vreinterpretq_f32_u32(vandq_u32(vreinterpretq_u32_f32(lhs.data_),
-                                                vmvnq_u32(vreinterpretq_u32_f32(rhs.data_))));;
+        return  vreinterpretq_f32_u32(vandq_u32(vmvnq_u32(vreinterpretq_u32_f32(lhs.data_)),
+                                                vreinterpretq_u32_f32(rhs.data_)));
     }
 
 
@@ -363,7 +363,8 @@ public:
 public:
     friend inline vec select(vec lhs, vec rhs, vec bitmask)
     {
-        return vbslq_f32(vreinterpretq_u32_f32(bitmask.data_), lhs.data_, rhs.data_);
+        /* if bitmask is set, return value in rhs, else value in lhs */
+        return vbslq_f32(vreinterpretq_u32_f32(bitmask.data_), rhs.data_, lhs.data_);
     }
 
     /* @} */
-- 
2.43.0


From f224a9b7f05437618ffe26104b57ef7dc2964263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:00 +0000
Subject: [PATCH 17/21] fix: AltiVec andnot complemented the second operand
 instead of the first

---
 vec/vec_altivec.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vec/vec_altivec.hpp b/vec/vec_altivec.hpp
index d6eb849..83b383b 100644
--- a/vec/vec_altivec.hpp
+++ b/vec/vec_altivec.hpp
@@ -347,7 +347,7 @@ public:
 
     friend inline vec andnot(vec const & lhs, vec const & rhs)
     {
-        return vec_andc(lhs.data_, rhs.data_);
+        return vec_andc(rhs.data_, lhs.data_);
     }
 
 #undef BITWISE_OPERATOR
-- 
2.43.0


From e73982c3d5d828dccfad24f7b34b23ae7c51dc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:00 +0000
Subject: [PATCH 18/21] fix: AltiVec load and store did not work on unaligned
 addresses

vec_ld and vec_st truncate the address to a multiple of 16, so unaligned
loads returned and unaligned stores overwrote preceding elements.
---
 vec/vec_altivec.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vec/vec_altivec.hpp b/vec/vec_altivec.hpp
index 83b383b..8d7ebdb 100644
--- a/vec/vec_altivec.hpp
+++ b/vec/vec_altivec.hpp
@@ -153,7 +153,8 @@ public:
     /** io */
     void load(const float * data)
     {
-        base::data_ = vec_ld(0, data);
+        // vec_ld ignores the low bits of the address
+        std::memcpy(&data_, data, sizeof(data_));
     }
 
     void load_aligned(const float * data)
@@ -169,7 +170,8 @@ public:
 
     void store(float * dest) const
     {
-        vec_st(base::data_, 0, dest);
+        // vec_st ignores the low bits of the address
+        std::memcpy(dest, &data_, sizeof(data_));
     }
 
     void store_aligned(float * dest) const
-- 
2.43.0


From 6a03629c5783ca2d1dadc7402de695acc1645543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:00 +0000
Subject: [PATCH 19/21] fix: AltiVec trunc returned 0 for negative and 2^32 for
 large arguments

---
 vec/vec_altivec.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vec/vec_altivec.hpp b/vec/vec_altivec.hpp
index 8d7ebdb..f8961a5 100644
--- a/vec/vec_altivec.hpp
+++ b/vec/vec_altivec.hpp
@@ -467,7 +467,7 @@ public:
 
     friend inline vec trunc(vec const & arg)
     {
-        return arg.truncate_to_int().convert_to_float();
+        return vec_trunc(arg.data_);
     }
 
     typedef detail::int_vec_altivec int_vec;
-- 
2.43.0


From e136256086d6a2bedd3befab9c5dba43e3fcaa61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:00 +0000
Subject: [PATCH 20/21] fix: sqrt of zero was NaN with NEON and AltiVec

---
 vec/vec_altivec.hpp | 3 ++-
 vec/vec_neon.hpp    | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/vec/vec_altivec.hpp b/vec/vec_altivec.hpp
index f8961a5..41dc703 100644
--- a/vec/vec_altivec.hpp
+++ b/vec/vec_altivec.hpp
@@ -413,7 +413,8 @@ private:
     static internal_vector_type vec_sqrt(internal_vector_type const & arg)
     {
         // adapted from http://developer.apple.com/hardwaredrivers/ve/algorithms.html
-        return vec_mul(arg, vec_rsqrt(arg));
+        // the reciprocal square root of zero is infinite
+        return vec_sel(vec_mul(arg, vec_rsqrt(arg)), arg, vec_cmpeq(arg, gen_zero()));
     }
 
 public:
diff --git a/vec/vec_neon.hpp b/vec/vec_neon.hpp
index ff3700a..efe6fae 100644
--- a/vec/vec_neon.hpp
+++ b/vec/vec_neon.hpp
@@ -463,7 +463,10 @@ private:
         float32x4_t reciprocal = vrsqrteq_f32(arg);
 
         // TODO: maybe we should do another newton-raphson iteration (see: qvrsqrtsq_f32)?
-        return vmulq_f32(arg, reciprocal);
+        float32x4_t result = vmulq_f32(arg, reciprocal);
+
+        // the reciprocal square root of zero is infinite
+        return vbslq_f32(vceqq_f32(arg, gen_zero()), arg, result);
     }
 
 
-- 
2.43.0


From b1227dd3e66dee2db6e0e987ba2d9730dc68ca08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:00 +0000
Subject: [PATCH 21/21] fix: undenormalize_vec_simd did not compile with NEON
 and AltiVec

---
 vec/vec_altivec.hpp | 5 +++++
 vec/vec_neon.hpp    | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/vec/vec_altivec.hpp b/vec/vec_altivec.hpp
index 41dc703..88fdde3 100644
--- a/vec/vec_altivec.hpp
+++ b/vec/vec_altivec.hpp
@@ -393,6 +393,11 @@ public:
         return vec_mul(arg.data_, arg.data_);
     }
 
+    friend inline vec undenormalize(vec const & arg)
+    {
+        return detail::vec_undenormalize(arg);
+    }
+
 private:
     static internal_vector_type vec_rsqrt(internal_vector_type const & arg)
     {
diff --git a/vec/vec_neon.hpp b/vec/vec_neon.hpp
index efe6fae..2e8dd1b 100644
--- a/vec/vec_neon.hpp
+++ b/vec/vec_neon.hpp
@@ -480,6 +480,11 @@ public:
     {
         return detail::vec_signed_sqrt(arg);
     }
+
+    friend inline vec undenormalize(vec const & arg)
+    {
+        return detail::vec_undenormalize(arg);
+    }
     /* @} */
 
     typedef detail::int_vec_neon int_vec;
-- 
2.43.0

