From d0988d93d1965568e1a1e47fbaac667a29bf117e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:01 +0000
Subject: [PATCH 1/4] fix: DST1 via FFT no longer depends on the initial
 contents of the scratch buffer

Dst1ConvertToFft never wrote the two zero entries of its inner FFT input, so a
reused scratch buffer leaked into the result.
---
 src/algorithm/type1_convert_to_fft.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/algorithm/type1_convert_to_fft.rs b/src/algorithm/type1_convert_to_fft.rs
index 6e5f9a5..0f7cdf3 100644
--- a/src/algorithm/type1_convert_to_fft.rs
+++ b/src/algorithm/type1_convert_to_fft.rs
@@ -178,6 +178,10 @@ impl<T: DctNum> Dst1<T> for Dst1ConvertToFft<T> {
             *fft_cell = Complex::from(-*input_val);
         }
 
+        // the two zeros have to be written explicitly, because the scratch may contain anything
+        fft_buffer[0] = Complex::from(T::zero());
+        fft_buffer[buffer.len() + 1] = Complex::from(T::zero());
+
         // run the fft
         self.fft.process_with_scratch(fft_buffer, fft_scratch);
 
-- 
2.43.0


From d6771b08ec185e719306de32834db6a766cd8b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:01 +0000
Subject: [PATCH 2/4] fix: DST6 and DST7 via FFT no longer depend on the
 initial contents of the scratch buffer

Dst6And7ConvertToFft assumed that the unwritten parts of its inner FFT input
were zero, which is not the case when a scratch buffer is reused.
---
 src/algorithm/type6and7_convert_to_fft.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/algorithm/type6and7_convert_to_fft.rs b/src/algorithm/type6and7_convert_to_fft.rs
index c630774..ba711ed 100644
--- a/src/algorithm/type6and7_convert_to_fft.rs
+++ b/src/algorithm/type6and7_convert_to_fft.rs
@@ -65,6 +65,11 @@ impl<T: DctNum> Dst6<T> for Dst6And7ConvertToFft<T> {
         let complex_scratch = into_complex_mut(scratch);
         let (fft_buffer, fft_scratch) = complex_scratch.split_at_mut(self.inner_fft_len);
 
+        // Everything except the cells written below must be zero, but the scratch may contain anything
+        for fft_cell in fft_buffer.iter_mut() {
+            *fft_cell = Complex::from(T::zero());
+        }
+
         // Copy the buffer to the odd imaginary components of the FFT inputs
         for i in 0..buffer.len() {
             fft_buffer[i * 2 + 1].im = buffer[i];
@@ -95,6 +100,9 @@ impl<T: DctNum> Dst7<T> for Dst6And7ConvertToFft<T> {
         let complex_scratch = into_complex_mut(scratch);
         let (fft_buffer, fft_scratch) = complex_scratch.split_at_mut(self.inner_fft_len);
 
+        // The first element must be zero, but the scratch may contain anything
+        fft_buffer[0] = Complex::from(T::zero());
+
         // Copy all the even-indexed elements to the back of the FFT buffer array
         let even_count = (buffer.len() + 1) / 2;
         for i in 0..even_count {
-- 
2.43.0


From 3dea87cbacfcc762bf242ac8d87fb36807a69878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:25 +0000
Subject: [PATCH 3/4] fix: split radix DCT2/DCT3 no longer panics when an inner
 DCT needs more scratch than its length

Type2And3SplitRadix always handed the processing buffer to its inner DCTs as
scratch. Inner DCTs that need more scratch than that (for example ones based
on a large inner FFT) made every call panic. Report and use extra scratch
space in that case, the same way Type4ConvertToType3Even does.
---
 src/algorithm/type2and3_splitradix.rs | 49 +++++++++++++++++++++------
 1 file changed, 38 insertions(+), 11 deletions(-)

diff --git a/src/algorithm/type2and3_splitradix.rs b/src/algorithm/type2and3_splitradix.rs
index 62ce78b..e8e4970 100644
--- a/src/algorithm/type2and3_splitradix.rs
+++ b/src/algorithm/type2and3_splitradix.rs
@@ -32,6 +32,7 @@ pub struct Type2And3SplitRadix<T> {
     half_dct: Arc<dyn TransformType2And3<T>>,
     quarter_dct: Arc<dyn TransformType2And3<T>>,
     twiddles: Box<[Complex<T>]>,
+    scratch_len: usize,
 }
 
 impl<T: DctNum> Type2And3SplitRadix<T> {
@@ -56,10 +57,21 @@ impl<T: DctNum> Type2And3SplitRadix<T> {
             .map(|i| twiddles::single_twiddle(2 * i + 1, len * 4).conj())
             .collect();
 
+        // the inner DCTs can use the original buffer as scratch space, unless they need more than that
+        let inner_scratch = half_dct
+            .get_scratch_len()
+            .max(quarter_dct.get_scratch_len());
+        let scratch_len = if inner_scratch <= len {
+            len
+        } else {
+            len + inner_scratch
+        };
+
         Self {
             half_dct: half_dct,
             quarter_dct: quarter_dct,
             twiddles: twiddles.into_boxed_slice(),
+            scratch_len,
         }
     }
 }
@@ -72,8 +84,10 @@ impl<T: DctNum> Dct2<T> for Type2And3SplitRadix<T> {
         let half_len = len / 2;
         let quarter_len = len / 4;
 
+        let (self_scratch, extra_scratch) = scratch.split_at_mut(len);
+
         //preprocess the data by splitting it up into vectors of size n/2, n/4, and n/4
-        let (input_dct2, input_dct4) = scratch.split_at_mut(half_len);
+        let (input_dct2, input_dct4) = self_scratch.split_at_mut(half_len);
         let (input_dct4_even, input_dct4_odd) = input_dct4.split_at_mut(quarter_len);
 
         for i in 0..quarter_len {
@@ -103,12 +117,18 @@ impl<T: DctNum> Dct2<T> for Type2And3SplitRadix<T> {
             
         }
 
-        // compute the recursive DCT2s, using the original buffer as scratch space
-        self.half_dct.process_dct2_with_scratch(input_dct2, buffer);
+        // compute the recursive DCT2s, using the original buffer as scratch space if it's big enough
+        let inner_scratch = if extra_scratch.len() > 0 {
+            extra_scratch
+        } else {
+            &mut buffer[..]
+        };
+        self.half_dct
+            .process_dct2_with_scratch(input_dct2, inner_scratch);
         self.quarter_dct
-            .process_dct2_with_scratch(input_dct4_even, buffer);
+            .process_dct2_with_scratch(input_dct4_even, inner_scratch);
         self.quarter_dct
-            .process_dct2_with_scratch(input_dct4_odd, buffer);
+            .process_dct2_with_scratch(input_dct4_odd, inner_scratch);
 
         unsafe {
             //post process the 3 DCT2 outputs. the first few and the last will be done outside of the loop
@@ -154,8 +174,10 @@ impl<T: DctNum> Dct3<T> for Type2And3SplitRadix<T> {
         let half_len = len / 2;
         let quarter_len = len / 4;
 
+        let (self_scratch, extra_scratch) = scratch.split_at_mut(len);
+
         // divide the output into 3 sub-lists to use for our inner DCTs, one of size N/2 and two of size N/4
-        let (recursive_input_evens, recursive_input_odds) = scratch.split_at_mut(half_len);
+        let (recursive_input_evens, recursive_input_odds) = self_scratch.split_at_mut(half_len);
         let (recursive_input_n1, recursive_input_n3) =
             recursive_input_odds.split_at_mut(quarter_len);
 
@@ -183,13 +205,18 @@ impl<T: DctNum> Dct3<T> for Type2And3SplitRadix<T> {
             }
         }
 
-        //perform our recursive DCTs, using the original buffer as scratch space
+        //perform our recursive DCTs, using the original buffer as scratch space if it's big enough
+        let inner_scratch = if extra_scratch.len() > 0 {
+            extra_scratch
+        } else {
+            &mut buffer[..]
+        };
         self.half_dct
-            .process_dct3_with_scratch(recursive_input_evens, buffer);
+            .process_dct3_with_scratch(recursive_input_evens, inner_scratch);
         self.quarter_dct
-            .process_dct3_with_scratch(recursive_input_n1, buffer);
+            .process_dct3_with_scratch(recursive_input_n1, inner_scratch);
         self.quarter_dct
-            .process_dct3_with_scratch(recursive_input_n3, buffer);
+            .process_dct3_with_scratch(recursive_input_n3, inner_scratch);
 
         //merge the results. we're going to combine 2 separate things:
         // - merging the two smaller DCT3 outputs into a DCT4 output
@@ -240,7 +267,7 @@ impl<T> Length for Type2And3SplitRadix<T> {
 }
 impl<T> RequiredScratch for Type2And3SplitRadix<T> {
     fn get_scratch_len(&self) -> usize {
-        self.len()
+        self.scratch_len
     }
 }
 
-- 
2.43.0


From d140f8b3ed25d69957ed6b7db23aea75989cf028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:37 +0000
Subject: [PATCH 4/4] fix: plan_mdct honours the requested window function even
 if that size was planned before

The planner cached MDCT instances by size only, so a second request of the same
size with a different window silently returned an instance with the first window.
---
 src/plan.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/plan.rs b/src/plan.rs
index addb08a..e346a51 100644
--- a/src/plan.rs
+++ b/src/plan.rs
@@ -54,7 +54,8 @@ pub struct DctPlanner<T: DctNum> {
     dct8_cache: HashMap<usize, Arc<dyn Dct8<T>>>,
     dst8_cache: HashMap<usize, Arc<dyn Dst8<T>>>,
 
-    mdct_cache: HashMap<usize, Arc<dyn Mdct<T>>>,
+    // MDCT instances depend on their window as well as on their size, so store the window next to each instance
+    mdct_cache: HashMap<usize, Vec<(Vec<T>, Arc<dyn Mdct<T>>)>>,
 }
 impl<T: DctNum> DctPlanner<T> {
     pub fn new() -> Self {
@@ -336,11 +337,18 @@ impl<T: DctNum> DctPlanner<T> {
     where
         F: (FnOnce(usize) -> Vec<T>),
     {
-        if self.mdct_cache.contains_key(&len) {
-            Arc::clone(self.mdct_cache.get(&len).unwrap())
+        let window = window_fn(len * 2);
+
+        // an existing instance can only be re-used if it was planned with the same window
+        let cached_instances = self.mdct_cache.get(&len).map_or(&[][..], |v| &v[..]);
+        if let Some((_, instance)) = cached_instances.iter().find(|(w, _)| *w == window) {
+            Arc::clone(instance)
         } else {
-            let result = self.plan_new_mdct(len, window_fn);
-            self.mdct_cache.insert(len, Arc::clone(&result));
+            let result = self.plan_new_mdct(len, |_| window.clone());
+            self.mdct_cache
+                .entry(len)
+                .or_insert_with(Vec::new)
+                .push((window, Arc::clone(&result)));
             result
         }
     }
-- 
2.43.0

