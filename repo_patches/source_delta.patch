From 29bfeb56630bb57ca45963c0d4a8e7111aa66309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:49 +0000
Subject: [PATCH 01/21] fix: accept sub slices reaching the end of a
 MemorySlice, reject overflowing ranges

---
 src/memory/memory_slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/memory/memory_slice.rs b/src/memory/memory_slice.rs
index 1f23b5c..82fd3a7 100644
--- a/src/memory/memory_slice.rs
+++ b/src/memory/memory_slice.rs
@@ -120,7 +120,7 @@ where
             return Err(IndexOutOfBound);
         }
 
-        if offset + sub_length >= self.length {
+        if sub_length > self.length - offset {
             return Err(LengthOutOfBound);
         }
 
-- 
2.43.0


From eeeaaf81ba43955d945f1a9bab6d501d62b38614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:50 +0000
Subject: [PATCH 02/21] fix: report an index error when lerping in an empty
 MemorySlice

---
 src/memory/memory_slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/memory/memory_slice.rs b/src/memory/memory_slice.rs
index 82fd3a7..4809075 100644
--- a/src/memory/memory_slice.rs
+++ b/src/memory/memory_slice.rs
@@ -200,7 +200,7 @@ where
     }
 
     pub fn lerp(&self, index: f32) -> Result<f32, MemSliceError> {
-        if index < 0.0 {
+        if self.length == 0 || index < 0.0 {
             return Err(IndexOutOfBound);
         }
 
-- 
2.43.0


From 9c339477a74cbf6d8cef5a1c0637617bfb343d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:51 +0000
Subject: [PATCH 03/21] fix: report an index error when lerping at a NaN
 position of a MemorySlice

---
 src/memory/memory_slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/memory/memory_slice.rs b/src/memory/memory_slice.rs
index 4809075..64d44b0 100644
--- a/src/memory/memory_slice.rs
+++ b/src/memory/memory_slice.rs
@@ -200,7 +200,7 @@ where
     }
 
     pub fn lerp(&self, index: f32) -> Result<f32, MemSliceError> {
-        if self.length == 0 || index < 0.0 {
+        if self.length == 0 || index < 0.0 || index.is_nan() {
             return Err(IndexOutOfBound);
         }
 
-- 
2.43.0


From b168773966886c92701b72aa9d46142ea8e57d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:51 +0000
Subject: [PATCH 04/21] fix: wrap around when a wavetable is read behind its
 last sample

---
 src/oscillator/osc_wavetable.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/oscillator/osc_wavetable.rs b/src/oscillator/osc_wavetable.rs
index e0614e5..06daabd 100644
--- a/src/oscillator/osc_wavetable.rs
+++ b/src/oscillator/osc_wavetable.rs
@@ -21,10 +21,8 @@ impl<PA: PhaseAccumulator> WavetableOscillator<PA> {
         let phase = self.acc.next_value_normalized();
 
         // get interpolated sample
-        unsafe {
-            self.lookup_table
-                .lerp_unchecked(self.lookup_table.len() as f32 * phase)
-        }
+        self.lookup_table
+            .lerp_wrapped(self.lookup_table.len() as f32 * phase)
     }
 
     #[inline(always)]
-- 
2.43.0


From c9d6bd653a31176157b7eede2bad1d12022508cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:52 +0000
Subject: [PATCH 05/21] fix: keep the normalized phase below 1.0

---
 src/oscillator/phase_accumulator.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/oscillator/phase_accumulator.rs b/src/oscillator/phase_accumulator.rs
index 3e3f456..7e5331c 100644
--- a/src/oscillator/phase_accumulator.rs
+++ b/src/oscillator/phase_accumulator.rs
@@ -46,7 +46,10 @@ impl PhaseAccumulator for SoftPhaseAccumulator {
     #[inline(always)]
     fn next_value_normalized(&mut self) -> f32 {
         self.tick();
-        self.counter.wrapping_add(self.shift) as f32 / (u32::MAX as f32 + 1.0)
+        let value = self.counter.wrapping_add(self.shift) as f32 / (u32::MAX as f32 + 1.0);
+
+        // values close to u32::MAX are rounded up to a full turn
+        value.min(1.0 - f32::EPSILON / 2.0)
     }
 }
 
-- 
2.43.0


From 3d4ab1ba2828bbe84e596f4b5d7d389e44ef36d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:53 +0000
Subject: [PATCH 06/21] fix: restart the delay line when a shorter buffer is
 attached

---
 src/delay_line.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/delay_line.rs b/src/delay_line.rs
index a29b9a4..f6e6da9 100644
--- a/src/delay_line.rs
+++ b/src/delay_line.rs
@@ -18,6 +18,10 @@ impl DelayLine {
     #[inline(always)]
     pub fn change_buffer(&mut self, new_slice: MemorySlice<Mutable>) {
         self.buffer = new_slice;
+
+        if self.index >= self.buffer.len() {
+            self.index = 0;
+        }
     }
 
     #[inline(always)]
-- 
2.43.0


From 52b51b7d0c159b3690fae58f4f0a4fe9b90a479d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:30 +0000
Subject: [PATCH 07/21] fix: avoid integer overflow when reading four wrapped
 elements

---
 src/memory/memory_slice.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/memory/memory_slice.rs b/src/memory/memory_slice.rs
index 64d44b0..eaad891 100644
--- a/src/memory/memory_slice.rs
+++ b/src/memory/memory_slice.rs
@@ -166,7 +166,10 @@ where
     }
 
     pub fn get_slice_of_four_wrapped(&self, index: isize) -> [f32; 4] {
-        if index + 3 >= self.length as isize || index < 0 {
+        // stay clear of overflows at the limits of `isize`
+        let index = index.rem_euclid(self.length as isize);
+
+        if index + 3 >= self.length as isize {
             unsafe {
                 [
                     self.get_wrapped_unchecked(index + 0),
-- 
2.43.0


From d769be7af5623b3eeb0276fd900f4946cd6c4721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:31 +0000
Subject: [PATCH 08/21] fix: avoid integer overflow when reading a delay line
 at large offsets

---
 src/delay_line.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/delay_line.rs b/src/delay_line.rs
index f6e6da9..5ab4312 100644
--- a/src/delay_line.rs
+++ b/src/delay_line.rs
@@ -34,6 +34,9 @@ impl DelayLine {
     }
 
     pub fn read_wrapped_at(&self, offset: isize) -> f32 {
+        // stay clear of overflows at the limits of `isize`
+        let offset = offset % self.buffer.len() as isize;
+
         self.buffer.get_wrapped(self.index as isize + offset)
     }
 
-- 
2.43.0


From e6243027f32500d41c6242d3c244d77b91a06d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:31 +0000
Subject: [PATCH 09/21] fix: evaluate the wrapped lagrange window at the
 requested position

---
 src/memory/memory_slice.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/memory/memory_slice.rs b/src/memory/memory_slice.rs
index eaad891..a820217 100644
--- a/src/memory/memory_slice.rs
+++ b/src/memory/memory_slice.rs
@@ -240,7 +240,7 @@ where
             window_size = 100;
         }
 
-        let lower_bound = ((window_size / 2) as isize).neg() + 1;
+        let lower_bound = ((window_size.saturating_sub(1) / 2) as isize).neg();
         let upper_bound = (window_size / 2) as isize;
 
         for i in lower_bound..=upper_bound {
@@ -250,7 +250,10 @@ where
             }
         }
 
-        lagrange(&slice[..window_size], index - int_index as f32)
+        lagrange(
+            &slice[..window_size],
+            (index - int_index as f32) + lower_bound.neg() as f32,
+        )
     }
 
     pub fn lagrange_four_points_wrapped(&self, index: f32) -> f32 {
-- 
2.43.0


From ce5fbd9890636926f52fc0924a95c84df7a277ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:32 +0000
Subject: [PATCH 10/21] fix: evaluate the four point lagrange interpolation
 relative to its window

---
 src/memory/memory_slice.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/memory/memory_slice.rs b/src/memory/memory_slice.rs
index a820217..d1431b1 100644
--- a/src/memory/memory_slice.rs
+++ b/src/memory/memory_slice.rs
@@ -257,10 +257,12 @@ where
     }
 
     pub fn lagrange_four_points_wrapped(&self, index: f32) -> f32 {
+        let int_index = index.floor() as isize;
+
         unsafe {
             lagrange_only_4_elements(
-                &self.get_slice_of_four_wrapped(index.floor() as isize)[..],
-                index,
+                &self.get_slice_of_four_wrapped(int_index)[..],
+                index - int_index as f32,
             )
         }
     }
-- 
2.43.0


From adc46b80b9ff8c942ccd5f11f2fc546e7ffa6609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:33 +0000
Subject: [PATCH 11/21] fix: count the odd nodes of Simpson's rule only once

---
 src/float/integral.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/float/integral.rs b/src/float/integral.rs
index 343181d..24b3cc7 100644
--- a/src/float/integral.rs
+++ b/src/float/integral.rs
@@ -12,7 +12,6 @@ pub fn simpsons_rule<const N: usize>(f: fn(f32) -> f32, a: f32, b: f32) -> f32 {
         * (f(a)
             + 4.0 * y[1..N].iter().step_by(2).sum::<f32>()
             + 2.0 * y[2..N - 1].iter().step_by(2).sum::<f32>()
-            + 4.0 * y[1..].iter().step_by(2).sum::<f32>()
             + if N % 2 == 0 { f(b) } else { 0.0 });
     integral
 }
-- 
2.43.0


From 4687c9f5eceddd57bc77c61a7656f3f0b96bbcf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:34 +0000
Subject: [PATCH 12/21] fix: classify zero, negative, infinite and NaN voltage
 ratios in decibel conversion

---
 src/decibels.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/decibels.rs b/src/decibels.rs
index a9fcc1e..2ccbd58 100644
--- a/src/decibels.rs
+++ b/src/decibels.rs
@@ -20,12 +20,18 @@ pub trait Decibels {
 impl Decibels for f32 {
     #[inline(always)]
     fn to_decibels_unchecked(&self) -> f32 {
-        20.0 * self.log10()
+        // the approximated logarithm is only defined for positive and finite numbers
+        match *self {
+            x if x == 0.0 => f32::NEG_INFINITY,
+            x if x > 0.0 && x.is_finite() => 20.0 * x.log10(),
+            x if x > 0.0 => f32::INFINITY,
+            _ => f32::NAN,
+        }
     }
 
     #[inline(always)]
     fn to_decibels(&self) -> Result<f32, FpCategory> {
-        if *self < 0.0 {
+        if *self < 0.0 || self.is_nan() {
             return Err(Nan);
         }
 
@@ -34,7 +40,7 @@ impl Decibels for f32 {
 
     #[inline(always)]
     fn to_decibels_checked(&self) -> Result<f32, FpCategory> {
-        if *self < 0.0 {
+        if *self < 0.0 || self.is_nan() {
             return Err(Nan);
         }
 
-- 
2.43.0


From 1804a3d37f6651dbbf65e67e994473cb6817f15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:35 +0000
Subject: [PATCH 13/21] fix: never read behind the band-limited rectangle table

---
 src/float/math.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/float/math.rs b/src/float/math.rs
index 9b6eb56..98f9ac0 100644
--- a/src/float/math.rs
+++ b/src/float/math.rs
@@ -165,22 +165,22 @@ impl AdditionalF32Ext for f32 {
 
         if *self <= 0.25 {
             let f_index = self * 4.0;
-            return unsafe { buffer.lerp_unchecked(f_index * len as f32) };
+            return buffer.lerp_wrapped(f_index * len as f32);
         }
 
         if *self <= 0.5 {
             let f_index = (0.25 - (self - 0.25)) * 4.0;
-            return unsafe { buffer.lerp_unchecked(f_index * len as f32) };
+            return buffer.lerp_wrapped(f_index * len as f32);
         }
 
         if *self <= 0.75 {
             let f_index = (self - 0.5) * 4.0;
-            return unsafe { -1.0 * buffer.lerp_unchecked(f_index * len as f32) };
+            return -1.0 * buffer.lerp_wrapped(f_index * len as f32);
         }
 
         if *self < 1.0 {
             let f_index = (0.25 - (self - 0.75)) * 4.0;
-            return unsafe { -1.0 * buffer.lerp_unchecked(f_index * len as f32) };
+            return -1.0 * buffer.lerp_wrapped(f_index * len as f32);
         }
 
         return 0.0;
-- 
2.43.0


From 743ea47c18c01dcbd38dc1394ff7c914e7d50a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:00 +0000
Subject: [PATCH 14/21] fix: envelope stages shorter than one sample produce
 NaN

---
 src/envelope.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index 8fe88ab..0d96cfb 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -177,7 +177,10 @@ impl AudioRateADSR {
 }
 
 fn set_time_parameter(parameter_in_secs: f32, sr: f32) -> f32 {
-    (1.0 / (parameter_in_secs * sr)).clamp(SHORTEST_TIME_BASE / sr, f32::MAX)
+    // a stage takes at least one sample, bigger steps overflow the power curve
+    (1.0 / (parameter_in_secs * sr))
+        .clamp(SHORTEST_TIME_BASE / sr, f32::MAX)
+        .min(1.0)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 6c7aeb1002575c079f0ce01af3edba528aa85c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:01 +0000
Subject: [PATCH 15/21] fix: start the release from the sustain level that was
 last output

---
 src/envelope.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index 0d96cfb..6ba94a3 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -96,7 +96,10 @@ impl AudioRateADSR {
     pub fn tick(&mut self) -> f32 {
         match self.state {
             Idle => 0.0,
-            Sustain => self.sustain,
+            Sustain => {
+                self.envelope_value = self.sustain;
+                self.envelope_value
+            }
             Attack => self.next_attack(),
             Decay => self.next_decay(),
             Release => self.next_release(),
-- 
2.43.0


From 651779c41a60866ccb7fb35db6a6f41ed84bc0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:02 +0000
Subject: [PATCH 16/21] fix: let the checked frequency setter change the
 accumulator instead of consuming it

---
 src/oscillator/phase_accumulator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oscillator/phase_accumulator.rs b/src/oscillator/phase_accumulator.rs
index 7e5331c..da0296d 100644
--- a/src/oscillator/phase_accumulator.rs
+++ b/src/oscillator/phase_accumulator.rs
@@ -75,7 +75,7 @@ impl SoftPhaseAccumulator {
             .wrapping_add((self.freq * self.min_step) as u32);
     }
 
-    pub fn set_freq(mut self, freq: f32) -> Result<(), FrequencyError> {
+    pub fn set_freq(&mut self, freq: f32) -> Result<(), FrequencyError> {
         if freq == 0.0 {
             return Err(Zero);
         }
-- 
2.43.0


From a8046daae157e0ea47610065dbe1879fd76702b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:03 +0000
Subject: [PATCH 17/21] fix: report a range error when lerping with a NaN
 factor

---
 src/float/interpolation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/float/interpolation.rs b/src/float/interpolation.rs
index 52e563c..1adf2f4 100644
--- a/src/float/interpolation.rs
+++ b/src/float/interpolation.rs
@@ -20,7 +20,7 @@ pub fn lerp(a: f32, b: f32, interpolate: f32) -> Result<f32, InterpolationError>
         return Err(InterpolationError::InputInfinite);
     }
 
-    if interpolate < 0.0 || interpolate > 1.0 {
+    if interpolate < 0.0 || interpolate > 1.0 || interpolate.is_nan() {
         return Err(InterpolationError::InterpolationRange);
     }
 
-- 
2.43.0


From b47d13199963cbd439a04291b842a03bffc9a49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:27 +0000
Subject: [PATCH 18/21] fix: limit the slope of a new envelope like set_slope
 does

---
 src/envelope.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index 6ba94a3..d93a029 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -49,7 +49,7 @@ impl AudioRateADSR {
             release: set_time_parameter(release_in_secs, sr),
 
             sr,
-            slope,
+            slope: slope.clamp(1.0 / BIGGEST_SLOPE, BIGGEST_SLOPE),
             t: 0.0,
             state: Idle,
             release_val: 0.0,
-- 
2.43.0


From 26b3d2f369f672e71f682bdfd419b8f6980d2b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:31 +0000
Subject: [PATCH 19/21] fix: accept the last sample as a lerp position in long
 buffers

---
 src/memory/memory_slice.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/memory/memory_slice.rs b/src/memory/memory_slice.rs
index d1431b1..6831e5a 100644
--- a/src/memory/memory_slice.rs
+++ b/src/memory/memory_slice.rs
@@ -207,9 +207,7 @@ where
             return Err(IndexOutOfBound);
         }
 
-        if index == (self.length - 1) as f32
-            && index < self.length as f32 - 1.0 + 10.0 * f32::EPSILON
-        {
+        if index == (self.length - 1) as f32 {
             return Ok(unsafe { self.get_unchecked(index as usize) });
         }
 
-- 
2.43.0


From 59949c8792d24373d00a70ebb0499d700aa0d806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:25 +0000
Subject: [PATCH 20/21] fix: refuse a lerp position behind the last sample of
 buffers beyond 2^24 samples

---
 src/memory/memory_slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/memory/memory_slice.rs b/src/memory/memory_slice.rs
index 6831e5a..f5814b4 100644
--- a/src/memory/memory_slice.rs
+++ b/src/memory/memory_slice.rs
@@ -207,7 +207,7 @@ where
             return Err(IndexOutOfBound);
         }
 
-        if index == (self.length - 1) as f32 {
+        if index as usize == self.length - 1 && index == (self.length - 1) as f32 {
             return Ok(unsafe { self.get_unchecked(index as usize) });
         }
 
-- 
2.43.0


From 8e8ccc7e2dbe84f1eb730e4bc0d8accb85511821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:09 +0000
Subject: [PATCH 21/21] fix: a lagrange window of one point panicked between
 two samples

---
 src/memory/memory_slice.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/memory/memory_slice.rs b/src/memory/memory_slice.rs
index f5814b4..1a0e076 100644
--- a/src/memory/memory_slice.rs
+++ b/src/memory/memory_slice.rs
@@ -238,6 +238,11 @@ where
             window_size = 100;
         }
 
+        // the polynomial through a single point is constant
+        if window_size < 2 {
+            return self.get_wrapped(int_index);
+        }
+
         let lower_bound = ((window_size.saturating_sub(1) / 2) as isize).neg();
         let upper_bound = (window_size / 2) as isize;
 
-- 
2.43.0

