From 9a2339477005525aca23c8ff633d59640b974066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:30 +0000
Subject: [PATCH 01/18] fix: use arithmetic shift in the SIMD fixed point
 multiply kernels

The q7 and generic q15 kernels shifted the signed product logically, so every
negative product turned into a large positive value and saturated.
---
 src/neo/fixed_point/simd.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/neo/fixed_point/simd.hpp b/src/neo/fixed_point/simd.hpp
index c04a7b4..ed5299c 100644
--- a/src/neo/fixed_point/simd.hpp
+++ b/src/neo/fixed_point/simd.hpp
@@ -44,12 +44,12 @@ inline constexpr auto const mul_kernel_s8 = [](__m128i lhs, __m128i rhs) {
     auto const lowLeft    = _mm_cvtepi8_epi16(lhs);
     auto const lowRight   = _mm_cvtepi8_epi16(rhs);
     auto const lowProduct = _mm_mullo_epi16(lowLeft, lowRight);
-    auto const lowShifted = _mm_srli_epi16(lowProduct, FractionalBits);
+    auto const lowShifted = _mm_srai_epi16(lowProduct, FractionalBits);
 
     auto const highLeft    = _mm_cvtepi8_epi16(_mm_srli_si128(lhs, 8));
     auto const highRight   = _mm_cvtepi8_epi16(_mm_srli_si128(rhs, 8));
     auto const highProduct = _mm_mullo_epi16(highLeft, highRight);
-    auto const highShifted = _mm_srli_epi16(highProduct, FractionalBits);
+    auto const highShifted = _mm_srai_epi16(highProduct, FractionalBits);
 
     return _mm_packs_epi16(lowShifted, highShifted);
 };
@@ -62,12 +62,12 @@ inline constexpr auto const mul_kernel_s16 = [](__m128i lhs, __m128i rhs) {
         auto const low_left    = _mm_cvtepi16_epi32(lhs);
         auto const low_right   = _mm_cvtepi16_epi32(rhs);
         auto const low_product = _mm_mullo_epi32(low_left, low_right);
-        auto const low_shifted = _mm_srli_epi32(low_product, FractionalBits);
+        auto const low_shifted = _mm_srai_epi32(low_product, FractionalBits);
 
         auto const high_left    = _mm_cvtepi16_epi32(_mm_srli_si128(lhs, 8));
         auto const high_right   = _mm_cvtepi16_epi32(_mm_srli_si128(rhs, 8));
         auto const high_product = _mm_mullo_epi32(high_left, high_right);
-        auto const high_shifted = _mm_srli_epi32(high_product, FractionalBits);
+        auto const high_shifted = _mm_srai_epi32(high_product, FractionalBits);
 
         return _mm_packs_epi32(low_shifted, high_shifted);
     }
-- 
2.43.0


From f631bae3f206f022759ebba80e916254400ee70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:30 +0000
Subject: [PATCH 02/18] fix: saturate -1 * -1 in the SIMD q15 multiply kernels

The rounding high multiply wraps to -32768 for the single overflowing product,
while the scalar operator saturates to 32767.
---
 src/neo/fixed_point/simd.hpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/neo/fixed_point/simd.hpp b/src/neo/fixed_point/simd.hpp
index ed5299c..b76e3ab 100644
--- a/src/neo/fixed_point/simd.hpp
+++ b/src/neo/fixed_point/simd.hpp
@@ -19,6 +19,8 @@
 #endif
 
 #include <cassert>
+#include <cstdint>
+#include <limits>
 
 namespace neo {
 
@@ -57,7 +59,10 @@ inline constexpr auto const mul_kernel_s8 = [](__m128i lhs, __m128i rhs) {
 template<int FractionalBits>
 inline constexpr auto const mul_kernel_s16 = [](__m128i lhs, __m128i rhs) {
     if constexpr (FractionalBits == 15) {
-        return _mm_mulhrs_epi16(lhs, rhs);
+        // -1 * -1 is the only product that overflows, it wraps to the minimum & must saturate to the maximum
+        auto const product  = _mm_mulhrs_epi16(lhs, rhs);
+        auto const overflow = _mm_cmpeq_epi16(product, _mm_set1_epi16(std::numeric_limits<std::int16_t>::min()));
+        return _mm_xor_si128(product, overflow);
     } else {
         auto const low_left    = _mm_cvtepi16_epi32(lhs);
         auto const low_right   = _mm_cvtepi16_epi32(rhs);
@@ -79,7 +84,9 @@ inline constexpr auto const mul_kernel_s16 = [](__m128i lhs, __m128i rhs) {
 template<int FractionalBits>
 inline constexpr auto const mul_kernel_avx2_s16 = [](__m256i lhs, __m256i rhs) {
     if constexpr (FractionalBits == 15) {
-        return _mm256_mulhrs_epi16(lhs, rhs);
+        auto const product  = _mm256_mulhrs_epi16(lhs, rhs);
+        auto const overflow = _mm256_cmpeq_epi16(product, _mm256_set1_epi16(std::numeric_limits<std::int16_t>::min()));
+        return _mm256_xor_si256(product, overflow);
     } else {
         assert(false);
     }
@@ -92,7 +99,11 @@ inline constexpr auto const mul_kernel_avx2_s16 = [](__m256i lhs, __m256i rhs) {
 template<int FractionalBits>
 inline constexpr auto const mul_kernel_avx512_s16 = [](__m512i lhs, __m512i rhs) {
     if constexpr (FractionalBits == 15) {
-        return _mm512_mulhrs_epi16(lhs, rhs);
+        auto const min      = std::numeric_limits<std::int16_t>::min();
+        auto const max      = std::numeric_limits<std::int16_t>::max();
+        auto const product  = _mm512_mulhrs_epi16(lhs, rhs);
+        auto const overflow = _mm512_cmpeq_epi16_mask(product, _mm512_set1_epi16(min));
+        return _mm512_mask_blend_epi16(overflow, product, _mm512_set1_epi16(max));
     } else {
         assert(false);
     }
-- 
2.43.0


From 86435a9c41b0d128e60280170b17ec33ae724d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:30 +0000
Subject: [PATCH 03/18] fix: saturate float to fixed_point conversion before
 converting to integer

Values outside of the int32 range after scaling overflowed the conversion
(undefined behaviour, observed as a sign flip) before they could saturate.
---
 src/neo/fixed_point/fixed_point.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/neo/fixed_point/fixed_point.hpp b/src/neo/fixed_point/fixed_point.hpp
index 8103073..ab73f29 100644
--- a/src/neo/fixed_point/fixed_point.hpp
+++ b/src/neo/fixed_point/fixed_point.hpp
@@ -44,7 +44,11 @@ struct fixed_point
 
     template<std::floating_point Float>
     explicit constexpr fixed_point(Float val) noexcept
-        : _value{detail::saturate<storage_type>(static_cast<std::int32_t>(static_cast<float>(val) * scale))}
+        : _value{static_cast<storage_type>(std::clamp(
+            static_cast<float>(val) * scale,
+            static_cast<float>(std::numeric_limits<storage_type>::min()),
+            static_cast<float>(std::numeric_limits<storage_type>::max())
+        ))}
     {}
 
     constexpr fixed_point([[maybe_unused]] underlying_value_t tag, storage_type val) noexcept : _value{val} {}
-- 
2.43.0


From 903b6688a268b7fe8fb8a5da69bbcd761a931bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:37:42 +0000
Subject: [PATCH 04/18] fix: copy from split_complex reads the extent of the
 real part

split_complex has no extent(), so instantiating the overload did not compile.
---
 src/neo/algorithm/copy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neo/algorithm/copy.hpp b/src/neo/algorithm/copy.hpp
index b431dc1..64f6d0c 100644
--- a/src/neo/algorithm/copy.hpp
+++ b/src/neo/algorithm/copy.hpp
@@ -54,7 +54,7 @@ constexpr auto copy(split_complex<InVec> in, OutVec out) noexcept -> void
 
     using Complex = value_type_t<OutVec>;
 
-    for (auto i = std::size_t(0); i < static_cast<std::size_t>(in.extent(0)); ++i) {
+    for (auto i = std::size_t(0); i < static_cast<std::size_t>(in.real.extent(0)); ++i) {
         out[i] = Complex{in.real[i], in.imag[i]};
     }
 }
-- 
2.43.0


From 20a6fa3bfa40fa79782ca325835305acff441be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:06 +0000
Subject: [PATCH 05/18] fix: transform of a single element no longer touches
 the element behind it

Stage 0 of the radix-2 kernels and of the split transform always combined
element pairs, so a plan of order 0 read and wrote x[1] of a one element vector.
---
 src/neo/fft/fallback/fallback_split_fft_plan.hpp | 2 +-
 src/neo/fft/reference/kernel/c2c_dit2.hpp        | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/neo/fft/fallback/fallback_split_fft_plan.hpp b/src/neo/fft/fallback/fallback_split_fft_plan.hpp
index 65c5074..1c83b10 100644
--- a/src/neo/fft/fallback/fallback_split_fft_plan.hpp
+++ b/src/neo/fft/fallback/fallback_split_fft_plan.hpp
@@ -56,7 +56,7 @@ private:
         static constexpr auto const stage_length = 1;  // ipow<2>(0)
         static constexpr auto const stride       = 2;  // ipow<2>(0 + 1)
 
-        for (auto k{0}; k < static_cast<int>(size()); k += stride) {
+        for (auto k{0}; k + stage_length < static_cast<int>(size()); k += stride) {
             auto const i1 = k;
             auto const i2 = k + stage_length;
 
diff --git a/src/neo/fft/reference/kernel/c2c_dit2.hpp b/src/neo/fft/reference/kernel/c2c_dit2.hpp
index 1ed0ba7..ad28927 100644
--- a/src/neo/fft/reference/kernel/c2c_dit2.hpp
+++ b/src/neo/fft/reference/kernel/c2c_dit2.hpp
@@ -30,7 +30,7 @@ struct c2c_dit2_v1
             static constexpr auto const stage_length = 1;  // ipow<2>(0)
             static constexpr auto const stride       = 2;  // ipow<2>(0 + 1)
 
-            for (auto k{0}; k < static_cast<int>(size); k += stride) {
+            for (auto k{0}; k + stage_length < static_cast<int>(size); k += stride) {
                 auto const i1 = k;
                 auto const i2 = k + stage_length;
 
@@ -81,7 +81,7 @@ struct c2c_dit2_v2
             static constexpr auto const stage_length = 1;  // ipow<2>(0)
             static constexpr auto const stride       = 2;  // ipow<2>(0 + 1)
 
-            for (auto k{0}; k < static_cast<int>(size); k += stride) {
+            for (auto k{0}; k + stage_length < static_cast<int>(size); k += stride) {
                 auto const i1 = k;
                 auto const i2 = k + stage_length;
 
@@ -135,7 +135,7 @@ struct c2c_dit2_v3
             static constexpr auto const stage_length = 1;  // ipow<2>(0)
             static constexpr auto const stride       = 2;  // ipow<2>(0 + 1)
 
-            for (auto k{0}; k < static_cast<int>(size); k += stride) {
+            for (auto k{0}; k + stage_length < static_cast<int>(size); k += stride) {
                 auto const i1 = k;
                 auto const i2 = k + stage_length;
 
@@ -184,7 +184,7 @@ struct c2c_dit2_v4
             static constexpr auto const stage_length = 1;  // ipow<2>(0)
             static constexpr auto const stride       = 2;  // ipow<2>(0 + 1)
 
-            for (auto k{0}; k < static_cast<int>(size); k += stride) {
+            for (auto k{0}; k + stage_length < static_cast<int>(size); k += stride) {
                 auto const i1 = k;
                 auto const i2 = k + stage_length;
 
-- 
2.43.0


From 983dee73d4f82055163664342db37caff7e8ae7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:01 +0000
Subject: [PATCH 06/18] fix: c2c_dit2_v4 applied the last stage twice for order
 1 and wrapped around for order 0

---
 src/neo/fft/reference/kernel/c2c_dit2.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/neo/fft/reference/kernel/c2c_dit2.hpp b/src/neo/fft/reference/kernel/c2c_dit2.hpp
index ad28927..5c6ff9d 100644
--- a/src/neo/fft/reference/kernel/c2c_dit2.hpp
+++ b/src/neo/fft/reference/kernel/c2c_dit2.hpp
@@ -194,7 +194,7 @@ struct c2c_dit2_v4
             }
         }
 
-        for (auto stage{1ULL}; stage < order - 1; ++stage) {
+        for (auto stage{1ULL}; stage + 1ULL < order; ++stage) {
 
             auto const stage_length = ipow<2ULL>(stage);
             auto const stride       = ipow<2ULL>(stage + 1);
@@ -214,7 +214,7 @@ struct c2c_dit2_v4
             }
         }
 
-        {
+        if (order > 1) {
             // stage = order - 1
             auto const stage_length = size / 2UL;
 
-- 
2.43.0


From ed3277e9dbe30f03000ddf04ee88477f27ea3518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:41 +0000
Subject: [PATCH 07/18] fix: radix-4 plans rotated the odd branches in the
 wrong direction

---
 src/neo/fft/reference/c2c_dit4_plan.hpp          | 4 ++--
 src/neo/fft/reference/c2c_stockham_dit4_plan.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/neo/fft/reference/c2c_dit4_plan.hpp b/src/neo/fft/reference/c2c_dit4_plan.hpp
index 3a9f7d1..118ad68 100644
--- a/src/neo/fft/reference/c2c_dit4_plan.hpp
+++ b/src/neo/fft/reference/c2c_dit4_plan.hpp
@@ -58,7 +58,7 @@ private:
     {
         using Float = value_type_t<Complex>;
 
-        auto const z = Complex{Float(0), sign};
+        auto const z = Complex{Float(0), -sign};
 
         auto length   = 4UL;
         auto w_stride = ipow<size_type(4)>(order - 1UL);
@@ -139,7 +139,7 @@ private:
     {
         using Float = value_type_t<Complex>;
 
-        auto const z = Complex{Float(0), sign};
+        auto const z = Complex{Float(0), -sign};
 
         auto length   = ipow<size_type(4)>(order);
         auto w_stride = 1UL;
diff --git a/src/neo/fft/reference/c2c_stockham_dit4_plan.hpp b/src/neo/fft/reference/c2c_stockham_dit4_plan.hpp
index 96af1f8..e66935a 100644
--- a/src/neo/fft/reference/c2c_stockham_dit4_plan.hpp
+++ b/src/neo/fft/reference/c2c_stockham_dit4_plan.hpp
@@ -41,7 +41,7 @@ struct c2c_stockham_dit4_plan
         auto const y = _work.to_mdspan();
 
         auto const sign = dir == direction::forward ? Float(-1) : Float(+1);
-        auto const i    = Complex{Float(0), sign};
+        auto const i    = Complex{Float(0), -sign};
         // auto const w    = dir == direction::forward
         //                     ? stdex::submdspan(_w.to_mdspan(), 0, stdex::full_extent, stdex::full_extent)
         //                     : stdex::submdspan(_w.to_mdspan(), 1, stdex::full_extent, stdex::full_extent);
-- 
2.43.0


From c7e916275a0cc94d6deaefd8064a19cc0b9c9d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:41 +0000
Subject: [PATCH 08/18] fix: radix-2 stockham plans swapped the forward and
 backward transform

---
 src/neo/fft/reference/c2c_stockham_dif2_plan.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/neo/fft/reference/c2c_stockham_dif2_plan.hpp b/src/neo/fft/reference/c2c_stockham_dif2_plan.hpp
index 041fa2b..8e5b800 100644
--- a/src/neo/fft/reference/c2c_stockham_dif2_plan.hpp
+++ b/src/neo/fft/reference/c2c_stockham_dif2_plan.hpp
@@ -107,7 +107,7 @@ private:
     {
         auto w = stdex::mdarray<Complex, stdex::dextents<std::size_t, 1>>(n / 2);
         for (std::size_t i = 0; i < w.size(); i++) {
-            w(i) = twiddle<Complex>(n, i, fft::direction::backward);
+            w(i) = twiddle<Complex>(n, i, fft::direction::forward);
         }
         return w;
     }
@@ -194,8 +194,8 @@ private:
     {
         auto w = stdex::mdarray<Complex, stdex::dextents<std::size_t, 2>>{2, n / 2};
         for (std::size_t i = 0; i < w.extent(1); i++) {
-            w(0, i) = twiddle<Complex>(n, i, fft::direction::backward);
-            w(1, i) = twiddle<Complex>(n, i, fft::direction::forward);
+            w(0, i) = twiddle<Complex>(n, i, fft::direction::forward);
+            w(1, i) = twiddle<Complex>(n, i, fft::direction::backward);
         }
         return w;
     }
-- 
2.43.0


From 75528efa1835c0529b654135b7b2de9e836e1b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:04 +0000
Subject: [PATCH 09/18] fix: radix-4 plan of order 0 wrote past its twiddle
 table

---
 src/neo/fft/reference/c2c_dit4_plan.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/neo/fft/reference/c2c_dit4_plan.hpp b/src/neo/fft/reference/c2c_dit4_plan.hpp
index 118ad68..cc3d174 100644
--- a/src/neo/fft/reference/c2c_dit4_plan.hpp
+++ b/src/neo/fft/reference/c2c_dit4_plan.hpp
@@ -61,7 +61,7 @@ private:
         auto const z = Complex{Float(0), -sign};
 
         auto length   = 4UL;
-        auto w_stride = ipow<size_type(4)>(order - 1UL);
+        auto w_stride = x.size() / 4UL;
         auto krange   = 1UL;
         auto block    = x.size() / 4UL;
         auto base     = 0UL;
@@ -189,7 +189,7 @@ private:
 
     [[nodiscard]] static auto make_twiddle_lut(size_type n)
     {
-        auto kmax  = 3UL * (n / 4UL - 1UL);
+        auto kmax  = n < 4UL ? 0UL : 3UL * (n / 4UL - 1UL);
         auto w     = stdex::mdarray<Complex, stdex::dextents<std::size_t, 2>>{2, n};
         auto w_fwd = stdex::submdspan(w.to_mdspan(), 0, stdex::full_extent);
         auto w_bwd = stdex::submdspan(w.to_mdspan(), 1, stdex::full_extent);
-- 
2.43.0


From be141e8e02555c7120ab100573773c84cc8b41a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:37 +0000
Subject: [PATCH 10/18] fix: dct of a single element ignored its input

---
 src/neo/fft/dct.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/neo/fft/dct.hpp b/src/neo/fft/dct.hpp
index 728ca98..946003e 100644
--- a/src/neo/fft/dct.hpp
+++ b/src/neo/fft/dct.hpp
@@ -40,12 +40,11 @@ struct fallback_dct2_plan
         auto const buf = _buffer.to_mdspan();
         assert(len == size());
 
-        for (auto i{0U}; i < len / 2U; ++i) {
-            auto const src = i * 2U;
-            auto const top = len - i - 1;
+        for (auto i{0U}; i < len; ++i) {
+            auto const half = i / 2U;
+            auto const dest = i % 2U == 0U ? half : len - half - 1;
 
-            buf[i]   = x[src];
-            buf[top] = x[src + 1];
+            buf[dest] = x[i];
         }
 
         _fft(buf, direction::forward);
-- 
2.43.0


From 5ae96bf5f3d2b4d9508f38f4870739f6e83d4c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:47 +0000
Subject: [PATCH 11/18] fix: number of stft frames wrapped around for signals
 shorter than the hop

---
 src/neo/fft/stft.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neo/fft/stft.hpp b/src/neo/fft/stft.hpp
index c017577..5a5168f 100644
--- a/src/neo/fft/stft.hpp
+++ b/src/neo/fft/stft.hpp
@@ -21,7 +21,7 @@ namespace detail {
 [[nodiscard]] constexpr auto
 num_sftf_frames(std::size_t signal_size, std::size_t frame_size, std::size_t overlap_size) noexcept
 {
-    return idiv(signal_size - frame_size + overlap_size, frame_size - overlap_size) + 1;
+    return idiv(signal_size, frame_size - overlap_size);
 }
 
 }  // namespace detail
-- 
2.43.0


From 4bad15acf8fafe461f20f7277a3b8f452d79d0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:14 +0000
Subject: [PATCH 12/18] fix: overlap_add_convolver overwrote a partially filled
 input block

---
 src/neo/convolution/overlap_add_convolver.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/neo/convolution/overlap_add_convolver.hpp b/src/neo/convolution/overlap_add_convolver.hpp
index a15fced..4946ea4 100644
--- a/src/neo/convolution/overlap_add_convolver.hpp
+++ b/src/neo/convolution/overlap_add_convolver.hpp
@@ -41,6 +41,7 @@ private:
     fft::rfft_plan<real_type> _rfft{fft::from_order, fft::next_order(size_type(4))};
 
     stdex::mdarray<real_type, stdex::dextents<size_t, 1>> _real_window{_rfft.size()};
+    stdex::mdarray<real_type, stdex::dextents<size_t, 1>> _real_output{_rfft.size()};
     stdex::mdarray<real_type, stdex::dextents<size_t, 1>> _overlap{_rfft.size()};
     stdex::mdarray<Complex, stdex::dextents<size_t, 1>> _complex_window{_rfft.size() / 2 + 1};
 
@@ -60,6 +61,7 @@ auto overlap_add_convolver<Complex, Fdl, Filter>::filter(in_matrix_of<Complex> a
     _rfft           = fft::rfft_plan<real_type>{fft::from_order, fft::next_order(_block_size * 2U)};
     _complex_window = stdex::mdarray<Complex, stdex::dextents<size_t, 1>>{_rfft.size() / 2 + 1};
     _real_window    = stdex::mdarray<real_type, stdex::dextents<size_t, 1>>{_rfft.size()};
+    _real_output    = stdex::mdarray<real_type, stdex::dextents<size_t, 1>>{_rfft.size()};
     _overlap        = stdex::mdarray<real_type, stdex::dextents<size_t, 1>>{_rfft.size()};
 
     _fdl             = Fdl{f.extents()};
@@ -77,6 +79,7 @@ auto overlap_add_convolver<Complex, Fdl, Filter>::operator()(inout_vector_of<rea
     auto num_processed     = size_type(0);
 
     auto real_window     = _real_window.to_mdspan();
+    auto real_output     = _real_output.to_mdspan();
     auto complex_window  = _complex_window.to_mdspan();
     auto overlap         = _overlap.to_mdspan();
     auto accumulator     = _accumulator.to_mdspan();
@@ -111,11 +114,12 @@ auto overlap_add_convolver<Complex, Fdl, Filter>::operator()(inout_vector_of<rea
         _filter(_fdl[_current_segment], 0, accumulator);
         copy(accumulator, complex_window);
 
-        irfft(_rfft, complex_window, real_window);
-        scale(real_type(1) / static_cast<real_type>(_rfft.size()), real_window);
+        irfft(_rfft, complex_window, real_output);
+        scale(real_type(1) / static_cast<real_type>(_rfft.size()), real_output);
 
+        auto sub_output  = stdex::submdspan(real_output, std::tuple{_input_pos, _input_pos + num_to_process});
         auto sub_overlap = stdex::submdspan(overlap, std::tuple{_input_pos, _input_pos + num_to_process});
-        add(sub_window, sub_overlap, sub_inout);
+        add(sub_output, sub_overlap, sub_inout);
 
         _input_pos += num_to_process;
 
@@ -123,7 +127,7 @@ auto overlap_add_convolver<Complex, Fdl, Filter>::operator()(inout_vector_of<rea
             _input_pos = 0;
 
             copy(
-                stdex::submdspan(real_window, std::tuple{_block_size, _block_size * 2}),
+                stdex::submdspan(real_output, std::tuple{_block_size, _block_size * 2}),
                 stdex::submdspan(overlap, std::tuple{0, _block_size})
             );
             fill(real_window, real_type{});
-- 
2.43.0


From 1e3249c1a84a1ed04cb2630367e41c29c0ace148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:39 +0000
Subject: [PATCH 13/18] fix: overlap_save lost history when the block does not
 divide the transform

---
 src/neo/convolution/overlap_save.hpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/neo/convolution/overlap_save.hpp b/src/neo/convolution/overlap_save.hpp
index fb2ff9e..3a9242b 100644
--- a/src/neo/convolution/overlap_save.hpp
+++ b/src/neo/convolution/overlap_save.hpp
@@ -36,15 +36,11 @@ struct overlap_save
 private:
     auto slide_window_left(auto window) -> void
     {
-        auto const step      = static_cast<int>(block_size());
-        auto const num_steps = static_cast<int>(window.extent(0)) / step;
-        for (auto i{0}; i < num_steps - 1; ++i) {
-            auto const dest_idx = i * step;
-            auto const src_idx  = dest_idx + step;
-
-            auto const src_block  = stdex::submdspan(window, std::tuple{src_idx, src_idx + step});
-            auto const dest_block = stdex::submdspan(window, std::tuple{dest_idx, src_idx});
-            copy(src_block, dest_block);
+        auto const step = block_size();
+        auto const keep = static_cast<size_type>(window.extent(0)) - step;
+
+        for (size_type i{0}; i < keep; ++i) {
+            window[i] = window[i + step];
         }
     }
 
-- 
2.43.0


From 17176e672bc2335e5a420fbe2fef6b95c2379838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:46 +0000
Subject: [PATCH 14/18] fix: overlap_add read and wrote behind its window when
 the filter is shorter than the block

---
 src/neo/convolution/overlap_add.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/neo/convolution/overlap_add.hpp b/src/neo/convolution/overlap_add.hpp
index 0472aeb..dd6c01b 100644
--- a/src/neo/convolution/overlap_add.hpp
+++ b/src/neo/convolution/overlap_add.hpp
@@ -14,6 +14,7 @@
 #include <neo/fft/rfft.hpp>
 #include <neo/math/idiv.hpp>
 
+#include <algorithm>
 #include <cassert>
 #include <functional>
 
@@ -42,7 +43,7 @@ private:
 
     fft::rfft_plan<real_type, complex_type> _rfft{
         fft::from_order,
-        fft::next_order(output_size<mode::full>(_block_size, _filter_size)),
+        fft::next_order(std::max(output_size<mode::full>(_block_size, _filter_size), _block_size * size_type(2))),
     };
 
     stdex::mdarray<real_type, stdex::dextents<size_t, 1>> _window{_rfft.size()};
@@ -81,7 +82,8 @@ auto overlap_add<Complex>::operator()(inout_vector auto block, auto callback) ->
 
     auto const window   = _window.to_mdspan();
     auto const signal   = stdex::submdspan(window, std::tuple{0, block_size()});
-    auto const padding  = stdex::submdspan(window, std::tuple{block_size(), block_size() * 2U});
+    auto const padding  = stdex::submdspan(window, std::tuple{block_size(), transform_size()});
+    auto const tail     = stdex::submdspan(window, std::tuple{block_size(), block_size() * 2U});
     auto const spectrum = _spectrum.to_mdspan();
     auto const overlap  = _overlap.to_mdspan();
 
@@ -103,7 +105,7 @@ auto overlap_add<Complex>::operator()(inout_vector auto block, auto callback) ->
     add(signal, overlap, block);
 
     // Save overlap for next iteration
-    copy(padding, overlap);
+    copy(tail, overlap);
 }
 
 }  // namespace neo::convolution
-- 
2.43.0


From 4e0615dfbe4db44bfee6c57760123091c7b7c244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:56 +0000
Subject: [PATCH 15/18] fix: csr_matrix insert duplicated an existing element

---
 src/neo/container/csr_matrix.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/neo/container/csr_matrix.hpp b/src/neo/container/csr_matrix.hpp
index c267467..09ebd76 100644
--- a/src/neo/container/csr_matrix.hpp
+++ b/src/neo/container/csr_matrix.hpp
@@ -147,6 +147,11 @@ auto csr_matrix<T, IndexType, ValueContainer, IndexContainer>::insert(index_type
         idx++;
     }
 
+    if (idx < _row_indices[row + 1] && _colum_indices[idx] == col) {
+        _values[idx] = value;
+        return;
+    }
+
     auto const pidx = static_cast<std::ptrdiff_t>(idx);
     _values.insert(std::next(_values.begin(), pidx), value);
     _colum_indices.insert(std::next(_colum_indices.begin(), pidx), col);
-- 
2.43.0


From 42e9d49fa8fe9c7304e79e5394bdd52839df8396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:18 +0000
Subject: [PATCH 16/18] fix: restart overlap_add_convolver when a new filter is
 set

The write position and current segment survived filter(), so switching to a
filter with fewer segments or a smaller block in mid stream indexed outside the
new delay line.
---
 src/neo/convolution/overlap_add_convolver.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/neo/convolution/overlap_add_convolver.hpp b/src/neo/convolution/overlap_add_convolver.hpp
index 4946ea4..97c60ff 100644
--- a/src/neo/convolution/overlap_add_convolver.hpp
+++ b/src/neo/convolution/overlap_add_convolver.hpp
@@ -58,6 +58,9 @@ auto overlap_add_convolver<Complex, Fdl, Filter>::filter(in_matrix_of<Complex> a
     _block_size   = f.extent(1) - 1;
     _num_segments = f.extent(0);
 
+    _input_pos       = 0;
+    _current_segment = 0;
+
     _rfft           = fft::rfft_plan<real_type>{fft::from_order, fft::next_order(_block_size * 2U)};
     _complex_window = stdex::mdarray<Complex, stdex::dextents<size_t, 1>>{_rfft.size() / 2 + 1};
     _real_window    = stdex::mdarray<real_type, stdex::dextents<size_t, 1>>{_rfft.size()};
-- 
2.43.0


From f817d30a427d4c39a6f076e1f97c726029af265f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:08 +0000
Subject: [PATCH 17/18] fix: experimental rfft_plan returned a wrong spectrum
 for four and more samples

---
 src/neo/fft/experimental/rfft.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/neo/fft/experimental/rfft.hpp b/src/neo/fft/experimental/rfft.hpp
index bb556bb..9cbde28 100644
--- a/src/neo/fft/experimental/rfft.hpp
+++ b/src/neo/fft/experimental/rfft.hpp
@@ -156,7 +156,7 @@ struct rfft_plan
         auto const c2    = dir == direction::forward ? Float(-0.5) : Float(0.5);
         auto const theta = [=] {
             auto const t = static_cast<Float>(std::numbers::pi) / static_cast<Float>(n >> 1);
-            return dir == direction::forward ? t : -t;
+            return dir == direction::forward ? -t : t;
         }();
 
         if (dir == direction::forward) {
@@ -190,6 +190,11 @@ struct rfft_plan
             wi             = wi * wpr + tmp * wpi + wi;
         }
 
+        // The bin in the middle is its own mirror image
+        if (n >= 4) {
+            x[(n >> 1) + 1] = -x[(n >> 1) + 1];
+        }
+
         auto const h1r = x[0];
         if (dir == direction::forward) {
             x[0] = h1r + x[1];
-- 
2.43.0


From e685b8eb1412bdd33c9aa0cbe9514ea26d98f570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:08 +0000
Subject: [PATCH 18/18] fix: experimental c2c_dit2_plan of a single element
 touched the element behind it

---
 src/neo/fft/experimental/rfft.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neo/fft/experimental/rfft.hpp b/src/neo/fft/experimental/rfft.hpp
index 9cbde28..57792a9 100644
--- a/src/neo/fft/experimental/rfft.hpp
+++ b/src/neo/fft/experimental/rfft.hpp
@@ -33,7 +33,7 @@ struct c2c_kernel
             static constexpr auto const stage_length = 1;  // ipow<2>(0)
             static constexpr auto const stride       = 2;  // ipow<2>(0 + 1)
 
-            for (auto k{0}; k < static_cast<int>(size); k += stride) {
+            for (auto k{0}; k + stage_length < static_cast<int>(size); k += stride) {
                 auto const i1 = k;
                 auto const i2 = k + stage_length;
 
-- 
2.43.0

