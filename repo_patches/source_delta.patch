From fa584621edb4d342697cd55a85b322fdd2070bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:25 +0000
Subject: [PATCH 1/5] fix: round fixed-point values correctly up to the ends of
 their range

Signed values scaled down by all their value bits were divided by a negative
power of two, and the saturating addition of one half lost the rounding near
the largest magnitudes.
---
 src/fixed_point/mod.rs | 37 ++++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/src/fixed_point/mod.rs b/src/fixed_point/mod.rs
index 315f4c9..740ddb3 100644
--- a/src/fixed_point/mod.rs
+++ b/src/fixed_point/mod.rs
@@ -60,8 +60,9 @@ pub mod fix_i16 {
 
     pub fn scaled_down(raw: i16, shift: u8) -> i16 {
         if DO_CHECKS { assert_ne!(shift, 0); }
-        raw.saturating_add(raw.signum() << (shift - 1))
-            .max(i16::min_value() + 1) / (1 << shift)
+        let magnitude =
+            super::fix_u16::scaled_down(raw.wrapping_abs() as u16, shift);
+        magnitude as i16 * raw.signum()
     }
 }
 
@@ -70,7 +71,7 @@ pub mod fix_u16 {
 
     pub fn scaled_down(raw: u16, shift: u8) -> u16 {
         if DO_CHECKS { assert_ne!(shift, 0); }
-        raw.saturating_add(1 << (shift - 1)) >> shift
+        (raw >> shift) + (raw >> (shift - 1) & 1)
     }
 }
 
@@ -148,14 +149,16 @@ pub mod fix_i32 {
 
     pub fn scaled_down(raw: i32, shift: u8) -> i32 {
         if DO_CHECKS { assert_ne!(shift, 0); }
-        raw.saturating_add(raw.signum() << (shift - 1))
-            .max(i32::min_value() + 1) / (1 << shift)
+        let magnitude =
+            super::fix_u32::scaled_down(raw.wrapping_abs() as u32, shift);
+        magnitude as i32 * raw.signum()
     }
 
     pub fn div(raw: i32, divisor: i32) -> i32 {
         if DO_CHECKS { assert!(divisor > 0); }
-        raw.saturating_add(divisor / 2 * raw.signum())
-            .max(i32::min_value() + 1) / divisor
+        let magnitude =
+            super::fix_u32::div(raw.wrapping_abs() as u32, divisor as u32);
+        (magnitude as i32).wrapping_mul(raw.signum())
     }
 
     pub fn mul<A: FixI32, B: FixI32, R: FixI32>(a: &A, b: &B) -> R {
@@ -277,12 +280,13 @@ pub mod fix_u32 {
 
     pub fn scaled_down(raw: u32, shift: u8) -> u32 {
         if DO_CHECKS { assert_ne!(shift, 0); }
-        raw.saturating_add(1 << (shift - 1)) >> shift
+        (raw >> shift) + (raw >> (shift - 1) & 1)
     }
 
     pub fn div(raw: u32, divisor: u32) -> u32 {
         if DO_CHECKS { assert!(divisor > 0); }
-        raw.saturating_add(divisor / 2) / divisor
+        let round_up = raw % divisor >= divisor - divisor / 2;
+        raw / divisor + if round_up { 1 } else { 0 }
     }
 
     pub fn mul<A: FixU32, B: FixU32, R: FixU32>(a: &A, b: &B) -> R {
@@ -399,14 +403,16 @@ pub mod fix_i64 {
 
     pub fn scaled_down(raw: i64, shift: u8) -> i64 {
         if DO_CHECKS { assert_ne!(shift, 0); }
-        raw.saturating_add(raw.signum() << (shift - 1))
-            .max(i64::min_value() + 1) / (1 << shift)
+        let magnitude =
+            super::fix_u64::scaled_down(raw.wrapping_abs() as u64, shift);
+        magnitude as i64 * raw.signum()
     }
 
     pub fn div(raw: i64, divisor: i64) -> i64 {
         if DO_CHECKS { assert!(divisor > 0); }
-        raw.saturating_add(divisor / 2 * raw.signum())
-            .max(i64::min_value() + 1) / divisor
+        let magnitude =
+            super::fix_u64::div(raw.wrapping_abs() as u64, divisor as u64);
+        (magnitude as i64).wrapping_mul(raw.signum())
     }
 }
 
@@ -495,12 +501,13 @@ pub mod fix_u64 {
 
     pub fn scaled_down(raw: u64, shift: u8) -> u64 {
         if DO_CHECKS { assert_ne!(shift, 0); }
-        raw.saturating_add(1 << (shift - 1)) >> shift
+        (raw >> shift) + (raw >> (shift - 1) & 1)
     }
 
     pub fn div(raw: u64, divisor: u64) -> u64 {
         if DO_CHECKS { assert!(divisor > 0); }
-        raw.saturating_add(divisor / 2) / divisor
+        let round_up = raw % divisor >= divisor - divisor / 2;
+        raw / divisor + if round_up { 1 } else { 0 }
     }
 }
 
-- 
2.43.0


From b3dc316680ee75644e169d2e60487434038e2ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:56 +0000
Subject: [PATCH 2/5] fix: make flip of signed fractions return one minus the
 value

The constant one does not fit the signed type, so the checked subtraction
always failed.
---
 src/fixed_point/types.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fixed_point/types.rs b/src/fixed_point/types.rs
index 85a6b2f..66b6abf 100644
--- a/src/fixed_point/types.rs
+++ b/src/fixed_point/types.rs
@@ -123,7 +123,8 @@ impl FractOnlyI32 {
 
     /// Returns: (1 - self)
     pub fn flip(&self) -> Self {
-        Self::ONE_UNSAFE.sub(self)
+        let raw = Self::ONE_UNSAFE.raw().wrapping_sub(self.raw());
+        Self::new(raw, Self::FRACTIONAL_BITS)
     }
 
     pub fn to_unsigned(&self) -> FractOnlyU32 {
@@ -177,7 +178,8 @@ impl FractOnlyI64 {
 
     /// Returns: (1 - self)
     pub fn flip(&self) -> Self {
-        Self::ONE_UNSAFE.sub(self)
+        let raw = Self::ONE_UNSAFE.raw().wrapping_sub(self.raw());
+        Self::new(raw, Self::FRACTIONAL_BITS)
     }
 
     pub fn to_unsigned(&self) -> FractOnlyU64 {
-- 
2.43.0


From 2bf8549487439681af0c80f57e0d4e2f6e510ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:48 +0000
Subject: [PATCH 3/5] fix: keep refined probabilities below one when both
 products round up

---
 src/mixing/apm.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mixing/apm.rs b/src/mixing/apm.rs
index b73f0bd..5f6ce70 100644
--- a/src/mixing/apm.rs
+++ b/src/mixing/apm.rs
@@ -126,7 +126,9 @@ impl AdaptiveProbabilityMap {
             &right_bound, &weight_right);
         let result_left: FractOnlyU32 = fix_u32::mul(
             &left_bound, &weight_left);
-        result_left.add(&result_right)
+        // Both products can be rounded up, but the sum must stay below one.
+        let max_result = FractOnlyU32::ONE_UNSAFE.sub(&FractOnlyU32::ulp());
+        result_left.min(max_result.sub(&result_right)).add(&result_right)
     }
 
     pub fn update_predictions(&mut self, context: usize, input_bit: Bit,
-- 
2.43.0


From 6a6666de463ee68c42f2e2b01702612c97cf5179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:19 +0000
Subject: [PATCH 4/5] fix: count the cost of bits without contexts in the
 statistics

---
 src/predictor/stats.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/predictor/stats.rs b/src/predictor/stats.rs
index 8c18c45..4713732 100644
--- a/src/predictor/stats.rs
+++ b/src/predictor/stats.rs
@@ -77,6 +77,11 @@ impl<'a> PredictionStatistics<'a> {
         let contexts_count = contexts.items().len();
         self.total_contexts_count += contexts_count as u64;
 
+        let bit_cost = final_probability
+            .estimate_cost(input_bit, &self.luts.log2_lut()).to_fix_i64();
+        self.current_byte_cost = self.current_byte_cost.add(&bit_cost);
+        self.total_cost = self.total_cost.add(&bit_cost);
+
         if contexts_count > 0 {
             let max_order = contexts_count - 1;
             let stats_index = {
@@ -86,10 +91,6 @@ impl<'a> PredictionStatistics<'a> {
                 orders * 5 + unary_orders
             };
             self.per_order_counts[stats_index] += 1;
-            let bit_cost = final_probability
-                .estimate_cost(input_bit, &self.luts.log2_lut()).to_fix_i64();
-            self.current_byte_cost = self.current_byte_cost.add(&bit_cost);
-            self.total_cost = self.total_cost.add(&bit_cost);
             self.per_order_costs[stats_index] =
                 self.per_order_costs[stats_index].add(&bit_cost);
             self.per_order_occurrences_count[stats_index] +=
-- 
2.43.0


From cde78b256f49cdcc836e0b0e6b1a557af20190ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:16 +0000
Subject: [PATCH 5/5] fix: visiting the suffixes of an empty window panicked
 when it started at position 0

---
 src/history/window.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/history/window.rs b/src/history/window.rs
index ef965a5..67c3ee0 100644
--- a/src/history/window.rs
+++ b/src/history/window.rs
@@ -180,7 +180,9 @@ impl InputWindow {
 
     pub fn for_each_suffix<F: Fn(WindowIndex) -> ()>(&self, action: F) {
         let suffices_range =
-            if self.size == 0 || self.start.value <= self.cursor.value {
+            if self.size == 0 {
+                (0..0).chain(0..0)
+            } else if self.start.value <= self.cursor.value {
                 (self.start.value..self.cursor.value + 1).chain(0..0)
             } else {
                 (self.start.value..self.max_size)
-- 
2.43.0

