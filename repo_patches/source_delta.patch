From 7a1f51ef244043a0e818c4ada6dab1f5885a48fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:03 +0000
Subject: [PATCH 1/6] fix: order() and sse_enabled() crashed for ratio 1 (no
 filter stage)

---
 include/pandaresampler.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pandaresampler.hh b/include/pandaresampler.hh
index c7fba41..c220038 100644
--- a/include/pandaresampler.hh
+++ b/include/pandaresampler.hh
@@ -255,7 +255,7 @@ public:
   uint
   order() const
   {
-    return impl_x2->order(); // FIXME
+    return impl_x2 ? impl_x2->order() : 0; // FIXME
   }
   /**
    * Return the delay introduced by the resampler. This delay is guaranteed to
@@ -312,7 +312,7 @@ public:
   bool
   sse_enabled() const
   {
-    return impl_x2->sse_enabled();
+    return impl_x2 && impl_x2->sse_enabled();
   }
 protected:
   /* Creates implementation from filter coefficients and Filter implementation class
-- 
2.43.0


From f3e25c5d71fd7c82f4c96543f0c15c0d538968d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:03 +0000
Subject: [PATCH 2/6] fix: SSE IIR downsampler read two floats past the end of
 the input

---
 include/pandaresampler/hiir/Downsampler2xSse.h  |  3 +++
 .../pandaresampler/hiir/Downsampler2xSse.hpp    | 17 +++++++++++++----
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/pandaresampler/hiir/Downsampler2xSse.h b/include/pandaresampler/hiir/Downsampler2xSse.h
index 7935fe5..60971ce 100644
--- a/include/pandaresampler/hiir/Downsampler2xSse.h
+++ b/include/pandaresampler/hiir/Downsampler2xSse.h
@@ -102,6 +102,9 @@ private:
 
 	Filter         _filter;		// Should be the first member (thus easier to align)
 
+	hiir_FORCEINLINE static __m128
+	               load_pair (const float *in_ptr);
+
 
 
 /*\\\ FORBIDDEN MEMBER FUNCTIONS \\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\*/
diff --git a/include/pandaresampler/hiir/Downsampler2xSse.hpp b/include/pandaresampler/hiir/Downsampler2xSse.hpp
index be91346..115c9a0 100644
--- a/include/pandaresampler/hiir/Downsampler2xSse.hpp
+++ b/include/pandaresampler/hiir/Downsampler2xSse.hpp
@@ -109,7 +109,7 @@ float	Downsampler2xSse <NC>::process_sample (const float in_ptr [2])
 {
 	assert (in_ptr != nullptr);
 
-	auto           x  = _mm_loadu_ps (in_ptr);
+	auto           x  = load_pair (in_ptr);
 	StageProcSseV2 <_nbr_stages>::process_sample_pos (x, &_filter [0]);
 	x = _mm_add_ss (x, _mm_shuffle_ps (x, x, 1));
 	x = _mm_mul_ss (x, _mm_set_ss (0.5f));
@@ -145,7 +145,7 @@ void	Downsampler2xSse <NC>::process_block (float out_ptr [], const float in_ptr
 	const auto     half = _mm_set1_ps (0.5f);
 	for (long pos = 0; pos < nbr_spl; ++pos)
 	{
-		auto           x  = _mm_loadu_ps (in_ptr + pos * 2);
+		auto           x  = load_pair (in_ptr + pos * 2);
 		StageProcSseV2 <_nbr_stages>::process_sample_pos (x, &_filter [0]);
 		x = _mm_add_ss (x, _mm_shuffle_ps (x, x, 1));
 		x = _mm_mul_ss (x, half);
@@ -180,7 +180,7 @@ void	Downsampler2xSse <NC>::process_sample_split (float &low, float &high, const
 {
 	assert (in_ptr != nullptr);
 
-	auto           x  = _mm_loadu_ps (in_ptr);
+	auto           x  = load_pair (in_ptr);
 	StageProcSseV2 <_nbr_stages>::process_sample_pos (x, &_filter [0]);
 	x = _mm_mul_ps (x, _mm_set1_ps (0.5f));
 	const auto     xr = _mm_shuffle_ps (x, x, 1);
@@ -228,7 +228,7 @@ void	Downsampler2xSse <NC>::process_block_split (float out_l_ptr [], float out_h
 	const auto     half = _mm_set1_ps (0.5f);
 	for (long pos = 0; pos < nbr_spl; ++pos)
 	{
-		auto           x  = _mm_loadu_ps (in_ptr + pos * 2);
+		auto           x  = load_pair (in_ptr + pos * 2);
 		StageProcSseV2 <_nbr_stages>::process_sample_pos (x, &_filter [0]);
 		x = _mm_mul_ps (x, half);
 		const auto     xr = _mm_shuffle_ps (x, x, 1);
@@ -268,6 +268,15 @@ void	Downsampler2xSse <NC>::clear_buffers ()
 
 
 
+// Loads one pair of input samples (and nothing beyond it) into the low lanes
+template <int NC>
+__m128	Downsampler2xSse <NC>::load_pair (const float *in_ptr)
+{
+	return _mm_loadl_pi (_mm_setzero_ps (), reinterpret_cast <const __m64 *> (in_ptr));
+}
+
+
+
 }  // namespace hiir
 
 }  // namespace PandaResampler
-- 
2.43.0


From 0bae9d1c0c116b3dac0e39fd1472ec8fbd70556b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:03 +0000
Subject: [PATCH 3/6] fix: IIR resamplers accessed memory out of bounds for
 empty blocks

---
 include/pandaresampler/pandaresampler.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/pandaresampler/pandaresampler.cc b/include/pandaresampler/pandaresampler.cc
index ae6bbd1..13fe7c8 100644
--- a/include/pandaresampler/pandaresampler.cc
+++ b/include/pandaresampler/pandaresampler.cc
@@ -1085,6 +1085,8 @@ public:
   process_block (const float *input, uint n_input_samples, float *output) override
   {
     const uint n_output_samples = n_input_samples / 2;
+    if (!n_output_samples)
+      return;
 
     downs.process_block (output, input, n_output_samples);
   }
@@ -1123,6 +1125,9 @@ public:
   void
   process_block (const float *input, uint n_input_samples, float *output) override
   {
+    if (!n_input_samples)
+      return;
+
     ups.process_block (output, input, n_input_samples);
   }
   uint
@@ -1162,6 +1167,8 @@ public:
   process_block (const float *input, uint n_input_samples, float *output) override
   {
     const uint n_output_samples = n_input_samples / 2;
+    if (!n_output_samples)
+      return;
 
     downs.process_block (output, input, n_output_samples);
   }
@@ -1200,6 +1207,9 @@ public:
   void
   process_block (const float *input, uint n_input_samples, float *output) override
   {
+    if (!n_input_samples)
+      return;
+
     ups.process_block (output, input, n_input_samples);
   }
   uint
-- 
2.43.0


From e92b81ea098ff8ff8dea812f5808848a3fca4d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:03 +0000
Subject: [PATCH 4/6] fix: SSE IIR filters with an odd number of coefficients
 never forgot rounding errors

The unused lane of the last stage was an all-pass with its pole at z=-1
(coefficient 1), which only cancels in exact arithmetic.
---
 .../pandaresampler/hiir/Downsampler2xSse.h    |  3 +++
 .../pandaresampler/hiir/Downsampler2xSse.hpp  | 26 +++++++++++++------
 include/pandaresampler/hiir/Upsampler2xSse.h  |  3 +++
 .../pandaresampler/hiir/Upsampler2xSse.hpp    | 22 +++++++++++-----
 4 files changed, 40 insertions(+), 14 deletions(-)

diff --git a/include/pandaresampler/hiir/Downsampler2xSse.h b/include/pandaresampler/hiir/Downsampler2xSse.h
index 60971ce..13d7d6e 100644
--- a/include/pandaresampler/hiir/Downsampler2xSse.h
+++ b/include/pandaresampler/hiir/Downsampler2xSse.h
@@ -102,6 +102,9 @@ private:
 
 	Filter         _filter;		// Should be the first member (thus easier to align)
 
+	hiir_FORCEINLINE void
+	               process_stages (__m128 &x);
+
 	hiir_FORCEINLINE static __m128
 	               load_pair (const float *in_ptr);
 
diff --git a/include/pandaresampler/hiir/Downsampler2xSse.hpp b/include/pandaresampler/hiir/Downsampler2xSse.hpp
index 115c9a0..e87c8d0 100644
--- a/include/pandaresampler/hiir/Downsampler2xSse.hpp
+++ b/include/pandaresampler/hiir/Downsampler2xSse.hpp
@@ -53,10 +53,6 @@ Downsampler2xSse <NC>::Downsampler2xSse ()
 	{
 		_mm_store_ps (_filter [i]._coef, _mm_setzero_ps ());
 	}
-	if (NBR_COEFS < _nbr_stages * 2)
-	{
-		_filter [_nbr_stages]._coef [0] = 1;
-	}
 
 	clear_buffers ();
 }
@@ -110,7 +106,7 @@ float	Downsampler2xSse <NC>::process_sample (const float in_ptr [2])
 	assert (in_ptr != nullptr);
 
 	auto           x  = load_pair (in_ptr);
-	StageProcSseV2 <_nbr_stages>::process_sample_pos (x, &_filter [0]);
+	process_stages (x);
 	x = _mm_add_ss (x, _mm_shuffle_ps (x, x, 1));
 	x = _mm_mul_ss (x, _mm_set_ss (0.5f));
 
@@ -146,7 +142,7 @@ void	Downsampler2xSse <NC>::process_block (float out_ptr [], const float in_ptr
 	for (long pos = 0; pos < nbr_spl; ++pos)
 	{
 		auto           x  = load_pair (in_ptr + pos * 2);
-		StageProcSseV2 <_nbr_stages>::process_sample_pos (x, &_filter [0]);
+		process_stages (x);
 		x = _mm_add_ss (x, _mm_shuffle_ps (x, x, 1));
 		x = _mm_mul_ss (x, half);
 		out_ptr [pos] = _mm_cvtss_f32 (x);
@@ -181,7 +177,7 @@ void	Downsampler2xSse <NC>::process_sample_split (float &low, float &high, const
 	assert (in_ptr != nullptr);
 
 	auto           x  = load_pair (in_ptr);
-	StageProcSseV2 <_nbr_stages>::process_sample_pos (x, &_filter [0]);
+	process_stages (x);
 	x = _mm_mul_ps (x, _mm_set1_ps (0.5f));
 	const auto     xr = _mm_shuffle_ps (x, x, 1);
 	low  = _mm_cvtss_f32 (_mm_add_ss (xr, x));
@@ -229,7 +225,7 @@ void	Downsampler2xSse <NC>::process_block_split (float out_l_ptr [], float out_h
 	for (long pos = 0; pos < nbr_spl; ++pos)
 	{
 		auto           x  = load_pair (in_ptr + pos * 2);
-		StageProcSseV2 <_nbr_stages>::process_sample_pos (x, &_filter [0]);
+		process_stages (x);
 		x = _mm_mul_ps (x, half);
 		const auto     xr = _mm_shuffle_ps (x, x, 1);
 		out_l_ptr [pos] = _mm_cvtss_f32 (_mm_add_ss (xr, x));
@@ -268,6 +264,20 @@ void	Downsampler2xSse <NC>::clear_buffers ()
 
 
 
+template <int NC>
+void	Downsampler2xSse <NC>::process_stages (__m128 &x)
+{
+	StageProcSseV2 <_nbr_stages>::process_sample_pos (x, &_filter [0]);
+	if (NBR_COEFS < _nbr_stages * 2)
+	{
+		// Odd number of coefficients: lane 0 has no filter in the last stage,
+		// so its result is the input of that stage.
+		x = _mm_move_ss (x, _mm_load_ss (_filter [_nbr_stages - 1]._mem));
+	}
+}
+
+
+
 // Loads one pair of input samples (and nothing beyond it) into the low lanes
 template <int NC>
 __m128	Downsampler2xSse <NC>::load_pair (const float *in_ptr)
diff --git a/include/pandaresampler/hiir/Upsampler2xSse.h b/include/pandaresampler/hiir/Upsampler2xSse.h
index 8b026f1..00fea3a 100644
--- a/include/pandaresampler/hiir/Upsampler2xSse.h
+++ b/include/pandaresampler/hiir/Upsampler2xSse.h
@@ -100,6 +100,9 @@ private:
 
 	Filter         _filter;		// Should be the first member (thus easier to align)
 
+	hiir_FORCEINLINE void
+	               process_stages (__m128 &x);
+
 
 
 /*\\\ FORBIDDEN MEMBER FUNCTIONS \\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\*/
diff --git a/include/pandaresampler/hiir/Upsampler2xSse.hpp b/include/pandaresampler/hiir/Upsampler2xSse.hpp
index 0b72838..c3d4717 100644
--- a/include/pandaresampler/hiir/Upsampler2xSse.hpp
+++ b/include/pandaresampler/hiir/Upsampler2xSse.hpp
@@ -56,10 +56,6 @@ Upsampler2xSse <NC>::Upsampler2xSse ()
 	{
 		_mm_store_ps (_filter [i]._coef, _mm_setzero_ps ());
 	}
-	if (NBR_COEFS < _nbr_stages * 2)
-	{
-		_filter [_nbr_stages]._coef [0] = 1;
-	}
 
 	clear_buffers ();
 }
@@ -113,7 +109,7 @@ template <int NC>
 void	Upsampler2xSse <NC>::process_sample (float &out_0, float &out_1, float input)
 {
 	auto           x = _mm_set1_ps (input);
-	StageProcSseV2 <_nbr_stages>::process_sample_pos (x, &_filter [0]);
+	process_stages (x);
 	out_1 = _mm_cvtss_f32 (x);
 	x = _mm_shuffle_ps (x, x, 1);
 	out_0 = _mm_cvtss_f32 (x);
@@ -150,7 +146,7 @@ void	Upsampler2xSse <NC>::process_block (float out_ptr [], const float in_ptr []
 		process_sample (out_ptr [pos * 2], out_ptr [pos * 2 + 1], in_ptr [pos]);
 #else
 	auto           x = _mm_set1_ps (in_ptr [pos]);
-	StageProcSseV2 <_nbr_stages>::process_sample_pos (x, &_filter [0]);
+	process_stages (x);
 	x = _mm_shuffle_ps (x, x, 1);
 	_mm_storel_pi (reinterpret_cast <__m64 *> (out_ptr + pos * 2), x);
 #endif
@@ -188,6 +184,20 @@ void	Upsampler2xSse <NC>::clear_buffers ()
 
 
 
+template <int NC>
+void	Upsampler2xSse <NC>::process_stages (__m128 &x)
+{
+	StageProcSseV2 <_nbr_stages>::process_sample_pos (x, &_filter [0]);
+	if (NBR_COEFS < _nbr_stages * 2)
+	{
+		// Odd number of coefficients: lane 0 has no filter in the last stage,
+		// so its result is the input of that stage.
+		x = _mm_move_ss (x, _mm_load_ss (_filter [_nbr_stages - 1]._mem));
+	}
+}
+
+
+
 }  // namespace hiir
 
 }  // namespace PandaResampler
-- 
2.43.0


From 958eb852135952ec77384bc05ad41ac62010ae23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:03 +0000
Subject: [PATCH 5/6] fix: AlignedArray wrote through a null pointer if memory
 allocation failed

---
 include/pandaresampler.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pandaresampler.hh b/include/pandaresampler.hh
index c220038..309f34e 100644
--- a/include/pandaresampler.hh
+++ b/include/pandaresampler.hh
@@ -55,7 +55,7 @@ class AlignedArray {
      */
     const size_t cache_line_size = 64;
 
-    unaligned_mem = (unsigned char *) malloc (n_elements * sizeof (T) + 2 * (cache_line_size - 1));
+    unaligned_mem = static_cast<unsigned char *> (::operator new (n_elements * sizeof (T) + 2 * (cache_line_size - 1)));
     unsigned char *aligned_mem = unaligned_mem;
     if ((ptrdiff_t) aligned_mem % cache_line_size)
       aligned_mem += cache_line_size - (ptrdiff_t) aligned_mem % cache_line_size;
@@ -80,7 +80,7 @@ public:
     /* C++ destruction order: last allocated element is deleted first */
     while (n_elements)
       data[--n_elements].~T();
-    free (unaligned_mem);
+    ::operator delete (unaligned_mem);
   }
   T&
   operator[] (size_t pos)
-- 
2.43.0


From 77488b030b40ac1e1a51bacc642cec6d4039111d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:34 +0000
Subject: [PATCH 6/6] fix: AlignedArray allocated too little memory if the size
 in bytes overflows

---
 include/pandaresampler.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/pandaresampler.hh b/include/pandaresampler.hh
index 309f34e..a961601 100644
--- a/include/pandaresampler.hh
+++ b/include/pandaresampler.hh
@@ -55,6 +55,9 @@ class AlignedArray {
      */
     const size_t cache_line_size = 64;
 
+    if (n_elements > (size_t (-1) - 2 * (cache_line_size - 1)) / sizeof (T))
+      throw std::bad_array_new_length();
+
     unaligned_mem = static_cast<unsigned char *> (::operator new (n_elements * sizeof (T) + 2 * (cache_line_size - 1)));
     unsigned char *aligned_mem = unaligned_mem;
     if ((ptrdiff_t) aligned_mem % cache_line_size)
-- 
2.43.0

