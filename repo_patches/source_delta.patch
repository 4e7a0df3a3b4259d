From b2b92548a57135259cfd2350f95d24062130c788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:22 +0000
Subject: [PATCH 01/20] fix: classify every NaN bit pattern as Nan

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 42406f4..2edde81 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -539,9 +539,9 @@ impl f256 {
         match abs_bits_sticky {
             0 => FpCategory::Zero,
             INF_HI => FpCategory::Infinite,
-            NAN_HI => FpCategory::Nan,
             ..=HI_FRACTION_MASK => FpCategory::Subnormal,
-            _ => FpCategory::Normal,
+            ..=MAX_HI => FpCategory::Normal,
+            _ => FpCategory::Nan,
         }
     }
 
-- 
2.43.0


From ac64f352c947a5ef52a62346fcb696cdfb80950d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:14 +0000
Subject: [PATCH 02/20] fix: keep all discarded product bits for rounding
 subnormal products

---
 src/binops/mul.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binops/mul.rs b/src/binops/mul.rs
index 394e3ea..0a5bef6 100644
--- a/src/binops/mul.rs
+++ b/src/binops/mul.rs
@@ -30,7 +30,7 @@ fn mul_signifs(x: &U256, y: &U256) -> (U256, u32, u32) {
     let shift = EXP_BITS - 1 + carry;
     let rem = hi.rem_pow2(shift).lo;
     let rnd_bits = (rem.0 >> (shift - 2)) as u32
-        | (rem.0 > (1 << (shift - 1))) as u32
+        | (rem.0 & ((1 << (shift - 2)) - 1) != 0) as u32
         | !lo.is_zero() as u32;
     hi >>= shift;
     (hi, carry, rnd_bits)
-- 
2.43.0


From 08d4b6a595b1500e5f6eef6e5d188b7a5b61cd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:23 +0000
Subject: [PATCH 03/20] fix: keep the sign of zero results of the rounding
 functions

---
 src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2edde81..e646000 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -910,6 +910,7 @@ impl f256 {
             return match (sign, adj(sign)) {
                 (0, true) => Self::ONE,
                 (1, true) => Self::NEG_ONE,
+                (1, false) => Self::NEG_ZERO,
                 (..) => Self::ZERO,
             };
         }
@@ -1046,7 +1047,7 @@ impl f256 {
         }
         if abs_bits.hi.0 < ONE_HALF.bits.hi.0 {
             // 0 < |self| < ½
-            return Self::ZERO;
+            return [Self::ZERO, Self::NEG_ZERO][self.sign() as usize];
         }
         if abs_bits.hi.0 <= ONE.bits.hi.0 {
             // ½ <= |self| <= 1
@@ -1100,7 +1101,7 @@ impl f256 {
         }
         if abs_bits.hi.0 <= ONE_HALF.bits.hi.0 {
             // 0 < |self| <= ½
-            return Self::ZERO;
+            return [Self::ZERO, Self::NEG_ZERO][self.sign() as usize];
         }
         if abs_bits.hi.0 <= ONE.bits.hi.0 {
             // ½ < |self| <= 1
-- 
2.43.0


From ab8be6a6c408a92a4bdb68cab424a1c4ac475558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:23 +0000
Subject: [PATCH 04/20] fix: round_tie_even of numbers just above one half

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index e646000..28f9f10 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1099,7 +1099,7 @@ impl f256 {
             // |self| >= 2²³⁶, i. e. self is integral.
             return *self;
         }
-        if abs_bits.hi.0 <= ONE_HALF.bits.hi.0 {
+        if abs_bits <= ONE_HALF.bits {
             // 0 < |self| <= ½
             return [Self::ZERO, Self::NEG_ZERO][self.sign() as usize];
         }
-- 
2.43.0


From 0405fe5eb3662ddf482fdfe34c52ecc63fd6716e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:23 +0000
Subject: [PATCH 05/20] fix: mul_pow2 of subnormal numbers

---
 src/lib.rs | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 28f9f10..ced4bca 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1145,27 +1145,24 @@ impl f256 {
             return *self;
         }
         // self is finite and non-zero.
-        let exp_bits = exp_bits(&abs_bits);
-        if exp_bits.saturating_add(n) >= EXP_MAX {
+        let mut abs_bits = abs_bits;
+        let mut n = n;
+        if exp_bits(&abs_bits) == 0 {
+            // self is subnornal
+            let shl = n.min(abs_bits.leading_zeros() - EXP_BITS);
+            abs_bits <<= shl;
+            n -= shl;
+        }
+        // n > 0 => abs_bits represents a normal number.
+        if exp_bits(&abs_bits).saturating_add(n) >= EXP_MAX {
             return [Self::INFINITY, Self::NEG_INFINITY]
                 [self.sign() as usize];
         }
-        if exp_bits == 0 {
-            // self is subnornal
-            const EXP: i32 = 1 - (EXP_BIAS as i32 + FRACTION_BITS as i32);
-            let fraction = fraction(&abs_bits);
-            let exp = EXP + n as i32;
-            return Self::from_sign_exp_signif(
-                self.sign(),
-                exp,
-                (fraction.hi.0, fraction.lo.0),
-            );
-        }
-        // self is normal.
+        abs_bits.hi.0 += (n as u128) << HI_FRACTION_BITS;
         Self {
             bits: U256::new(
-                self.bits.hi.0 + ((n as u128) << HI_FRACTION_BITS),
-                self.bits.lo.0,
+                abs_bits.hi.0 | sign_bits_hi(self),
+                abs_bits.lo.0,
             ),
         }
     }
-- 
2.43.0


From 23b8d573b75d5e086ca46d3344781ed6d184766a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:23 +0000
Subject: [PATCH 06/20] fix: div_pow2 with results at or below the subnormal
 range

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ced4bca..875246a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1220,11 +1220,11 @@ impl f256 {
         }
         // self is finite and non-zero.
         let exp_bits = exp_bits(&abs_bits);
-        if exp_bits < n {
+        if n > 0 && exp_bits <= n {
             // result is subnornal or underflows to zero
             const EXP: i32 = 1 - (EXP_BIAS as i32 + FRACTION_BITS as i32);
             let shr = n - exp_bits + norm_bit(&abs_bits);
-            if shr > self.bits.msb() {
+            if shr > SIGNIFICAND_BITS {
                 return [Self::ZERO, Self::NEG_ZERO][self.sign() as usize];
             }
             let signif = signif(&abs_bits).rounding_div_pow2(shr);
-- 
2.43.0


From 3553f1f02d2671d31b241d0f55f1a61409de1b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:23 +0000
Subject: [PATCH 07/20] fix: to_degrees and to_radians of special, tiny and
 huge numbers

---
 src/lib.rs | 43 +++++++++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 875246a..ff77066 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -627,6 +627,33 @@ impl f256 {
         Self::ONE / self
     }
 
+    // Returns self * m / 2ⁿ, where m >= 2²⁵⁰.
+    #[allow(clippy::cast_possible_wrap)]
+    #[allow(clippy::cast_sign_loss)]
+    fn mul_scaled(self, m: &U256, n: i32) -> Self {
+        const MIN_QUANTUM_EXP: i32 = EMIN - FRACTION_BITS as i32;
+        if abs_bits(&self).is_special() {
+            // self is either NaN, infinite or equal 0
+            return self;
+        }
+        let signif = self.integral_significand();
+        let exp = self.quantum_exponent() - n;
+        let (lo, hi) = m.widening_mul(&signif);
+        let t = U512::from_hi_lo(hi, lo);
+        let sh = (t.msb() + 1 - SIGNIFICAND_BITS)
+            .max((MIN_QUANTUM_EXP - exp).max(0) as u32);
+        let c = t.rounding_div_pow2(sh).lo;
+        if c.is_zero() {
+            return [Self::ZERO, Self::NEG_ZERO][self.sign() as usize];
+        }
+        let exp = exp + sh as i32;
+        if exp + c.msb() as i32 > EMAX {
+            return [Self::INFINITY, Self::NEG_INFINITY]
+                [self.sign() as usize];
+        }
+        Self::encode(self.sign(), exp, c)
+    }
+
     /// Converts radians to degrees.
     ///
     /// Returns self * (180 / π)
@@ -640,13 +667,7 @@ impl f256 {
             69798147688063442975655060594812004816,
         );
         const SH: i32 = 250_i32;
-        let signif = self.integral_significand();
-        let exp = self.quantum_exponent();
-        let (lo, hi) = M.widening_mul(&signif);
-        let mut t = U512::from_hi_lo(hi, lo);
-        let sh = signif.msb() + 256 - SIGNIFICAND_BITS;
-        t = t.rounding_div_pow2(sh);
-        Self::encode(self.sign(), exp - SH + sh as i32, t.lo)
+        self.mul_scaled(&M, SH)
     }
 
     /// Converts degrees to radians.
@@ -662,13 +683,7 @@ impl f256 {
             953738875812114979603059177117484306,
         );
         const SH: i32 = 261_i32;
-        let signif = self.integral_significand();
-        let exp = self.quantum_exponent();
-        let (lo, hi) = M.widening_mul(&signif);
-        let mut t = U512::from_hi_lo(hi, lo);
-        let sh = signif.msb() + 256 - SIGNIFICAND_BITS;
-        t = t.rounding_div_pow2(sh);
-        Self::encode(self.sign(), exp - SH + sh as i32, t.lo)
+        self.mul_scaled(&M, SH)
     }
 
     /// Returns the maximum of the two numbers, ignoring NaN.
-- 
2.43.0


From a0349889e48ff4839c7e2da6c2892d3e938bd8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:23 +0000
Subject: [PATCH 08/20] fix: zero remainders take the sign of the dividend

---
 src/binops/rem.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/binops/rem.rs b/src/binops/rem.rs
index 114425f..eefb38f 100644
--- a/src/binops/rem.rs
+++ b/src/binops/rem.rs
@@ -65,7 +65,7 @@ pub(crate) fn rem(x: f256, y: f256) -> f256 {
 
     // If the significands are equal, |x| is an integral multiple of |y|.
     if signif_x == signif_y {
-        return f256::ZERO;
+        return [f256::ZERO, f256::NEG_ZERO][x.sign() as usize];
     }
 
     let n_bits = exp_bits_x + norm_bit_y - exp_bits_y - norm_bit_x;
@@ -81,7 +81,7 @@ pub(crate) fn rem(x: f256, y: f256) -> f256 {
         }
     }
     if abs_bits_z.is_zero() {
-        return f256::ZERO;
+        return [f256::ZERO, f256::NEG_ZERO][x.sign() as usize];
     }
     let shift_z = min(
         FRACTION_BITS - abs_bits_z.msb(),
-- 
2.43.0


From e172cfdfa7ec9fa7702e3987c86bca319cb61f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:35 +0000
Subject: [PATCH 09/20] fix: mul_add and square_add with subnormal operands and
 results

Normalize subnormal multiplicands, compare product and addend explicitly
whenever the addend may be the smaller one, and derive the exponent of
the result from the alignment actually used.
---
 src/fused_ops/fma.rs | 56 ++++++++++++++++++++------------------------
 1 file changed, 25 insertions(+), 31 deletions(-)

diff --git a/src/fused_ops/fma.rs b/src/fused_ops/fma.rs
index 07fa345..96bba18 100644
--- a/src/fused_ops/fma.rs
+++ b/src/fused_ops/fma.rs
@@ -269,10 +269,10 @@ pub(crate) fn fma(x: &f256, y: &f256, a: &f256) -> f256 {
     // Extract biased exponents and significands.
     let exp_bits_x = exp_bits(&abs_bits_x) as i32;
     let norm_bit_x = norm_bit(&abs_bits_x) as i32;
-    let signif_x = signif(&abs_bits_x);
+    let (signif_x, norm_shift_x) = norm_signif(&abs_bits_x);
     let exp_bits_y = exp_bits(&abs_bits_y) as i32;
     let norm_bit_y = norm_bit(&abs_bits_y) as i32;
-    let signif_y = signif(&abs_bits_y);
+    let (signif_y, norm_shift_y) = norm_signif(&abs_bits_y);
     let exp_bits_a = exp_bits(&abs_bits_a) as i32;
     let norm_bit_a = norm_bit(&abs_bits_a) as i32;
     let signif_a = signif(&abs_bits_a);
@@ -292,8 +292,10 @@ pub(crate) fn fma(x: &f256, y: &f256, a: &f256) -> f256 {
     // E(p) = e(x) + e(y) - Eₘᵢₙ
     //      = E(x) - n(x) + Eₘᵢₙ + E(y) - n(y) + Eₘᵢₙ - Eₘᵢₙ
     //      = E(x) - n(x)) + E(y) - n(y) + Eₘᵢₙ
-    let exp_bits_p =
-        (exp_bits_x - norm_bit_x) + (exp_bits_y - norm_bit_y) + EMIN;
+    // reduced by the shifts needed to normalize subnormal multiplicands.
+    let exp_bits_p = (exp_bits_x - norm_bit_x) + (exp_bits_y - norm_bit_y)
+        - (norm_shift_x + norm_shift_y) as i32
+        + EMIN;
     // Align the addend based on the difference of the exponents of the addend
     // and the product. Swap the operands, so that the larger one is the
     // first. The sign of the result is the sign of the larger operand.
@@ -323,9 +325,10 @@ pub(crate) fn fma(x: &f256, y: &f256, a: &f256) -> f256 {
             signif_a_shifted = u768::from_u256_shifted(&signif_a, shr);
             (&mut signif_p, &signif_a_shifted, sign_bits_hi_p)
         }
-        0..=1 => {
-            // Because of the uncertainty on the leading digit of the product
-            // we have to check explicitly for max(p, a).
+        0..=ADDEND_ANCHORED_UPPER_LIMIT => {
+            // Because of the uncertainty on the leading digits of the product
+            // and of a subnormal addend we have to check explicitly for
+            // max(p, a).
             let shr = (REL_OFFSET as i32 - d) as u32;
             signif_a_shifted = u768::from_u256_shifted(&signif_a, shr);
             if signif_p >= signif_a_shifted {
@@ -334,11 +337,6 @@ pub(crate) fn fma(x: &f256, y: &f256, a: &f256) -> f256 {
                 (&mut signif_a_shifted, &signif_p, sign_bits_hi_a)
             }
         }
-        2..=ADDEND_ANCHORED_UPPER_LIMIT => {
-            let shr = (REL_OFFSET as i32 - d) as u32;
-            signif_a_shifted = u768::from_u256_shifted(&signif_a, shr);
-            (&mut signif_a_shifted, &signif_p, sign_bits_hi_a)
-        }
         _ => {
             // Product too small.
             signif_a_shifted = u768::from_u256_shifted(&signif_a, 0);
@@ -355,27 +353,23 @@ pub(crate) fn fma(x: &f256, y: &f256, a: &f256) -> f256 {
     if signif_z_nlz == u768::BITS {
         return f256::ZERO;
     }
-    // Calculate exponent and normalize result.
-    let (exp_bits_m1_z, shl) = if d <= ADDEND_ANCHORED_UPPER_LIMIT {
-        let n = signif_z_nlz - EXP_BITS;
-        let carry = REL_OFFSET as i32 - n as i32;
-        let t = exp_bits_p + carry + 1;
-        // If the result overflows the range of values representable as
-        // `f256`, return +/- Infinity.
-        if t >= EXP_MAX as i32 {
-            return f256 {
-                bits: U256::new(sign_bits_hi_z | INF_HI, 0),
-            };
-        }
-        if t >= 1 {
-            (t - 1, n)
-        } else {
-            (0, REL_OFFSET)
-        }
+    // Calculate exponent and normalize result. A subnormal result must not be
+    // shifted beyond Eₘᵢₙ.
+    let max_shl = if d <= ADDEND_ANCHORED_UPPER_LIMIT {
+        exp_bits_p + REL_OFFSET as i32
     } else {
-        (exp_bits_a - 1, 0)
+        exp_bits_a - norm_bit_a
     };
-    *signif_z <<= shl;
+    let shl = min((signif_z_nlz - EXP_BITS) as i32, max_shl);
+    let exp_bits_m1_z = max_shl - shl;
+    // If the result overflows the range of values representable as `f256`,
+    // return +/- Infinity.
+    if exp_bits_m1_z >= EXP_MAX as i32 - 1 {
+        return f256 {
+            bits: U256::new(sign_bits_hi_z | INF_HI, 0),
+        };
+    }
+    *signif_z <<= shl as u32;
     // Now we have the results preliminary significand in signif_z.hi, before
     // rounding.
     debug_assert!(signif_z.hi.leading_zeros() >= EXP_BITS);
-- 
2.43.0


From 8b8351e577d6e8b71cf791ffecf364a194424d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:35 +0000
Subject: [PATCH 10/20] fix: sum_of_squares must not drop bits that decide the
 rounding

---
 src/fused_ops/sos.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/fused_ops/sos.rs b/src/fused_ops/sos.rs
index a11ee76..a33ecd8 100644
--- a/src/fused_ops/sos.rs
+++ b/src/fused_ops/sos.rs
@@ -40,19 +40,23 @@ pub(crate) fn sos(x: &f256, y: &f256) -> f256 {
             // Atleast one operand is NAN.
             return f256::NAN;
         }
-        if abs_bits_sticky_x <= HI_FRACTION_MASK {
-            // x is zero or subnormal.
+        if max_abs_bits_sticky == HI_EXP_MASK {
+            // Atleast one operand is infinite.
+            return f256::INFINITY;
+        }
+        if abs_bits_sticky_x == 0 {
+            // x is zero.
             return y.square();
         }
-        if abs_bits_sticky_y <= HI_FRACTION_MASK {
-            // y is zero or subnormal.
+        if abs_bits_sticky_y == 0 {
+            // y is zero.
             return x.square();
         }
-        // For all other special cases the result is INF.
-        return f256::INFINITY;
+        // One operand is subnormal, the other one is normal. The square of
+        // the subnormal operand can still decide the rounding.
     }
 
-    // Both operands are finite and non-zero.
+    // Both operands are finite and non-zero, and atleast one is normal.
 
     // Compare the absolute values of the operands and swap them in case
     // |x| < |y|.
@@ -109,7 +113,8 @@ pub(crate) fn sos(x: &f256, y: &f256) -> f256 {
     let shr = max(-exp_bits_z, EXP_BITS as i32 - nlz);
     let shl =
         max(exp_bits_z - EXP_MAX as i32, nlz - EXP_BITS as i32).clamp(0, 236);
-    signif_z >>= shr.clamp(0, 511) as u32;
+    let (mut signif_z, rem) = signif_z.widening_shr(shr.clamp(0, 511) as u32);
+    signif_z.lo.lo.0 |= (!rem.is_zero()) as u128;
     signif_z <<= shl as u32;
     exp_bits_z += shr - shl + (signif_z.hi.hi.0 > HI_FRACTION_MASK) as i32;
     if exp_bits_z >= EXP_MAX as i32 {
-- 
2.43.0


From 62a5a4c5ccecba19da40a5b047ea7c5199de6089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:49 +0000
Subject: [PATCH 11/20] fix: rounding of decimal literals that lie halfway
 between two numbers

Round half to even, ignore stale digits behind the last valid one and
don't take a truncated product for an exact tie.
---
 src/conv/big_decimal.rs          | 13 +++++++++----
 src/conv/from_str/fast_approx.rs |  8 +++++---
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/conv/big_decimal.rs b/src/conv/big_decimal.rs
index c6db9ae..99d5b3d 100644
--- a/src/conv/big_decimal.rs
+++ b/src/conv/big_decimal.rs
@@ -475,11 +475,16 @@ impl Decimal {
         let dp = self.decimal_point as usize;
         let mut n = U256::ZERO;
         for i in 0..dp {
-            imul10_add(&mut n, self.digits[i]);
+            // The buffer may hold stale digits behind the last valid one.
+            let d = if i < self.n_digits { self.digits[i] } else { 0 };
+            imul10_add(&mut n, d);
         }
-        if self.digits[dp] > 5
-            || self.digits[dp] == 5
-                && (dp < self.n_digits - 1 || self.truncated)
+        if dp < self.n_digits
+            && (self.digits[dp] > 5
+                || self.digits[dp] == 5
+                    && (dp < self.n_digits - 1
+                        || self.truncated
+                        || n.lo.is_odd()))
         {
             n.incr();
         }
diff --git a/src/conv/from_str/fast_approx.rs b/src/conv/from_str/fast_approx.rs
index d7b14cf..0cd4418 100644
--- a/src/conv/from_str/fast_approx.rs
+++ b/src/conv/from_str/fast_approx.rs
@@ -77,10 +77,12 @@ pub(super) fn fast_approx(
             }
             Ordering::Equal => {
                 // Check edge cases.
-                // If 5ᵏ ∈ [1..2²⁵⁶) we can be sure to have a tie, otherwise
-                // we have "a tie and a little bit more".
+                // If 5ᵏ ∈ [1..2²⁵⁶) we may have a tie or, if the discarded
+                // lower half of the product is not zero, "a tie and a
+                // little bit more". Otherwise we have the latter.
                 if (0..=110).contains(&exp10) {
-                    Some(signif2.lo.is_odd())
+                    // Fall back to slow algorithm.
+                    None
                 } else {
                     Some(true)
                 }
-- 
2.43.0


From 325d783fe1db4f6c33d853e7db8040982419a180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:17 +0000
Subject: [PATCH 12/20] fix: sign of zero literals, literals without digits and
 huge exponents

---
 src/conv/from_str/common.rs     |  2 ++
 src/conv/from_str/float_repr.rs | 21 +++++++++++++++++----
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/conv/from_str/common.rs b/src/conv/from_str/common.rs
index c12c42c..4e175c2 100644
--- a/src/conv/from_str/common.rs
+++ b/src/conv/from_str/common.rs
@@ -255,6 +255,8 @@ impl<'a> AsciiNumLit<'a> {
                     } else {
                         return None;
                     }
+                } else {
+                    return None;
                 }
                 while let Some(c) = self.first() {
                     let d = c.wrapping_sub(b'0');
diff --git a/src/conv/from_str/float_repr.rs b/src/conv/from_str/float_repr.rs
index 37286d1..a6e0885 100644
--- a/src/conv/from_str/float_repr.rs
+++ b/src/conv/from_str/float_repr.rs
@@ -271,7 +271,13 @@ impl FloatRepr {
         lit.skip_leading_zeroes(true);
         if lit.is_empty() {
             // There must have been atleast one zero.
-            return Self::Number(DecNumRepr::default());
+            if start_pos == lit.state.pos_radix_point.is_some() as usize {
+                return Self::Invalid;
+            }
+            return Self::Number(DecNumRepr {
+                sign,
+                ..DecNumRepr::default()
+            });
         }
 
         // Parse significant digits.
@@ -287,6 +293,13 @@ impl FloatRepr {
             return Self::parse_special(&mut lit, sign);
         }
 
+        // A lone radix point is not a number.
+        if start_pos - lit.len()
+            == lit.state.pos_radix_point.is_some() as usize
+        {
+            return Self::Invalid;
+        }
+
         // Set implicit radix point if no one was detected.
         if lit.state.pos_radix_point.is_none() {
             lit.state.pos_radix_point = Some(lit.len());
@@ -313,14 +326,14 @@ impl FloatRepr {
             lit.state.start_pos_signif.saturating_sub(pos_radix_point);
         let n_truncated_int_digits =
             n_int_digits.saturating_sub(PartialSignif::MAX_N_DIGITS);
-        exponent += n_truncated_int_digits as i32;
+        exponent = exponent.saturating_add(n_truncated_int_digits as i32);
         let n_frac_digits =
             pos_radix_point.saturating_sub(lit.state.end_pos_signif + 1);
-        exponent -= n_frac_digits as i32;
+        exponent = exponent.saturating_sub(n_frac_digits as i32);
 
         // Get normalized significand and adjust exponent
         let n_trailing_zeroes = partial_signif.normalize();
-        exponent += n_trailing_zeroes as i32;
+        exponent = exponent.saturating_add(n_trailing_zeroes as i32);
         let significand = partial_signif.significand();
         Self::Number(DecNumRepr {
             sign,
-- 
2.43.0


From d16f2273207c67ca0cd6ff77de9eb9d2a426508e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 13/20] fix: tiny literals with many digits are not zero

---
 src/conv/from_str/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/conv/from_str/mod.rs b/src/conv/from_str/mod.rs
index cf8add4..31db517 100644
--- a/src/conv/from_str/mod.rs
+++ b/src/conv/from_str/mod.rs
@@ -24,8 +24,8 @@ use super::big_decimal::{Decimal, MAX_DIGITS};
 use crate::{f256, HI_FRACTION_BIAS, MIN_GT_ZERO_10_EXP, U256};
 
 /// Minimum possible subnormal power of 10 exponent - adjustment of
-/// significand: ⌊(Eₘᵢₙ + 1 - p) × log₁₀(2)⌋ - ⌈p × log₁₀(2)⌉.
-const MIN_10_EXP_CUTOFF: i32 = -79056;
+/// significand (atmost 77 digits): ⌊(Eₘᵢₙ + 1 - p) × log₁₀(2)⌋ - 76.
+const MIN_10_EXP_CUTOFF: i32 = -79060;
 
 // The internals of ParseFloatError are not public. The following hack is used
 // to return the same errors as f64.
@@ -81,7 +81,7 @@ impl FromStr for f256 {
                 //  • ±0 if w = 0 or e < Eₘᵢₙ + 1 - p,
                 //  • ±Infinity if e > Eₘₐₓ.
 
-                // k < ⌊(Eₘᵢₙ + 1 - p) × log₁₀(2)⌋ - ⌈p × log₁₀(2)⌉
+                // k < ⌊(Eₘᵢₙ + 1 - p) × log₁₀(2)⌋ - 76
                 // => e < Eₘᵢₙ + 1 - p
                 if signif10.is_zero() || exp10 < MIN_10_EXP_CUTOFF {
                     return Ok([Self::ZERO, Self::NEG_ZERO][sign as usize]);
-- 
2.43.0


From 4c7b426ce80d371c871b2dc1aa51f043b190e2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:59 +0000
Subject: [PATCH 14/20] fix: sine and tangent of -0

---
 src/math/circular_fns/sin.rs     | 4 ++--
 src/math/circular_fns/sin_cos.rs | 4 ++--
 src/math/circular_fns/tan.rs     | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/math/circular_fns/sin.rs b/src/math/circular_fns/sin.rs
index ffc03fa..84284c8 100644
--- a/src/math/circular_fns/sin.rs
+++ b/src/math/circular_fns/sin.rs
@@ -22,8 +22,8 @@ impl f256 {
             if (self.bits.hi.0 & HI_ABS_MASK) > Self::MAX.bits.hi.0 {
                 return Self::NAN;
             }
-            // x = 0 => sine x = 0
-            return Self::ZERO;
+            // x = ±0 => sine x = x
+            return *self;
         }
         // Calculate ⌈x/½π⌋ % 4 and x % ½π.
         let (quadrant, fx) = reduce(&self.abs());
diff --git a/src/math/circular_fns/sin_cos.rs b/src/math/circular_fns/sin_cos.rs
index 3f78ccd..844c8f2 100644
--- a/src/math/circular_fns/sin_cos.rs
+++ b/src/math/circular_fns/sin_cos.rs
@@ -29,8 +29,8 @@ impl f256 {
             if (self.bits.hi.0 & HI_ABS_MASK) > f256::MAX.bits.hi.0 {
                 return (f256::NAN, f256::NAN);
             }
-            // x = 0 => sine x = 0 and cosine x = 1
-            return (f256::ZERO, f256::ONE);
+            // x = ±0 => sine x = x and cosine x = 1
+            return (*self, f256::ONE);
         }
         // Calculate ⌈|x|/½π⌋ % 4 and |x| % ½π.
         let (quadrant, fx) = reduce(&self.abs());
diff --git a/src/math/circular_fns/tan.rs b/src/math/circular_fns/tan.rs
index f3d3886..e35f9a8 100644
--- a/src/math/circular_fns/tan.rs
+++ b/src/math/circular_fns/tan.rs
@@ -18,8 +18,8 @@ impl f256 {
             if (self.bits.hi.0 & HI_ABS_MASK) > f256::MAX.bits.hi.0 {
                 return f256::NAN;
             }
-            // x = 0 => tangent x = 0
-            return f256::ZERO;
+            // x = ±0 => tangent x = x
+            return *self;
         }
         // Calculate tangent x = sine x / cosine x.
         let (sin, cos) = self.sin_cos();
-- 
2.43.0


From cb3c97121028545112e5f2da29ba4b87a208c9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:02 +0000
Subject: [PATCH 15/20] fix: atan2 of operands of equal magnitude and with one
 infinite operand

---
 src/math/circular_fns/atan.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/math/circular_fns/atan.rs b/src/math/circular_fns/atan.rs
index 07358cd..c70b4d4 100644
--- a/src/math/circular_fns/atan.rs
+++ b/src/math/circular_fns/atan.rs
@@ -108,6 +108,20 @@ impl f256 {
                 // self = 0, other < 0 => π
                 return [f256::ZERO, PI][other.sign() as usize];
             }
+            if abs_bits_sticky_x < HI_EXP_MASK {
+                // self is infinite, other is finite => ±½π
+                let mut res = FRAC_PI_2;
+                res.bits.hi.0 |= sign_bits_hi(&self);
+                return res;
+            }
+            if abs_bits_sticky_y < HI_EXP_MASK {
+                // self is finite, other is infinite
+                // other > 0 => ±0
+                // other < 0 => ±π
+                let mut res = [f256::ZERO, PI][other.sign() as usize];
+                res.bits.hi.0 |= sign_bits_hi(&self);
+                return res;
+            }
             // Both operands are infinite.
             return match (self.sign(), other.sign()) {
                 (0, 0) => FRAC_PI_4,
@@ -131,7 +145,7 @@ impl f256 {
             [BigFloat::FRAC_PI_2, -BigFloat::FRAC_PI_2][sign_q as usize]
                 - &BigFloat::from(&approx_atan(&FP492::from(&q)))
         } else {
-            [BigFloat::FRAC_PI_2, -BigFloat::FRAC_PI_2][sign_q as usize]
+            [BigFloat::FRAC_PI_4, -BigFloat::FRAC_PI_4][sign_q as usize]
         };
         match (self.sign(), other.sign()) {
             (0, 1) => {
-- 
2.43.0


From 404645b2a273878c922707b0080d90a853cffd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:28 +0000
Subject: [PATCH 16/20] fix: sine and tangent of tiny numbers

---
 src/math/circular_fns/mod.rs     | 5 +++++
 src/math/circular_fns/sin.rs     | 8 ++++++--
 src/math/circular_fns/sin_cos.rs | 9 +++++++--
 src/math/circular_fns/tan.rs     | 7 ++++++-
 4 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/math/circular_fns/mod.rs b/src/math/circular_fns/mod.rs
index c35c737..fa55beb 100644
--- a/src/math/circular_fns/mod.rs
+++ b/src/math/circular_fns/mod.rs
@@ -21,3 +21,8 @@ mod tan;
 mod two_over_pi;
 
 use super::{BigFloat, FP492, U256};
+use crate::EXP_BIAS;
+
+// Numbers x with a biased exponent less than this limit are so small that the
+// correctly rounded values of sine x, tangent x and arctangent x equal x.
+const TINY_EXP_LIMIT: u32 = EXP_BIAS - 119;
diff --git a/src/math/circular_fns/sin.rs b/src/math/circular_fns/sin.rs
index 84284c8..c64eeaf 100644
--- a/src/math/circular_fns/sin.rs
+++ b/src/math/circular_fns/sin.rs
@@ -9,9 +9,9 @@
 
 use super::{
     approx_cos::approx_cos, approx_sin::approx_sin, reduce::reduce, BigFloat,
-    FP492,
+    FP492, TINY_EXP_LIMIT,
 };
-use crate::{f256, HI_ABS_MASK};
+use crate::{abs_bits, exp_bits, f256, HI_ABS_MASK};
 
 impl f256 {
     /// Computes the sine of a number (in radians).
@@ -25,6 +25,10 @@ impl f256 {
             // x = ±0 => sine x = x
             return *self;
         }
+        // If |x| is very small, sine x = x.
+        if exp_bits(&abs_bits(self)) < TINY_EXP_LIMIT {
+            return *self;
+        }
         // Calculate ⌈x/½π⌋ % 4 and x % ½π.
         let (quadrant, fx) = reduce(&self.abs());
         // Map result according to quadrant and sign
diff --git a/src/math/circular_fns/sin_cos.rs b/src/math/circular_fns/sin_cos.rs
index 844c8f2..8f54fa2 100644
--- a/src/math/circular_fns/sin_cos.rs
+++ b/src/math/circular_fns/sin_cos.rs
@@ -7,10 +7,11 @@
 // $Source$
 // $Revision$
 
-use super::U256;
+use super::{TINY_EXP_LIMIT, U256};
 use crate::{
+    abs_bits,
     consts::FRAC_PI_2,
-    f256,
+    exp_bits, f256,
     math::circular_fns::{
         approx_cos::approx_cos, approx_sin::approx_sin,
         approx_sin_cos::approx_sin_cos, reduce::reduce,
@@ -32,6 +33,10 @@ impl f256 {
             // x = ±0 => sine x = x and cosine x = 1
             return (*self, f256::ONE);
         }
+        // If |x| is very small, sine x = x and cosine x = 1.
+        if exp_bits(&abs_bits(self)) < TINY_EXP_LIMIT {
+            return (*self, f256::ONE);
+        }
         // Calculate ⌈|x|/½π⌋ % 4 and |x| % ½π.
         let (quadrant, fx) = reduce(&self.abs());
         // Approximate sine and cosine
diff --git a/src/math/circular_fns/tan.rs b/src/math/circular_fns/tan.rs
index e35f9a8..7df962d 100644
--- a/src/math/circular_fns/tan.rs
+++ b/src/math/circular_fns/tan.rs
@@ -7,7 +7,8 @@
 // $Source$
 // $Revision$
 
-use crate::{f256, HI_ABS_MASK};
+use super::TINY_EXP_LIMIT;
+use crate::{abs_bits, exp_bits, f256, HI_ABS_MASK};
 
 impl f256 {
     /// Computes the tangent of a number (in radians).
@@ -21,6 +22,10 @@ impl f256 {
             // x = ±0 => tangent x = x
             return *self;
         }
+        // If |x| is very small, tangent x = x.
+        if exp_bits(&abs_bits(self)) < TINY_EXP_LIMIT {
+            return *self;
+        }
         // Calculate tangent x = sine x / cosine x.
         let (sin, cos) = self.sin_cos();
         sin / cos
-- 
2.43.0


From ed1b51891da167c2ae2a1dcef9bd371a18dde864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:23 +0000
Subject: [PATCH 17/20] fix: exponent of BigFloat products when rounding
 carries over

---
 src/math/big_float.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/math/big_float.rs b/src/math/big_float.rs
index 7ac8aa8..1da3dff 100644
--- a/src/math/big_float.rs
+++ b/src/math/big_float.rs
@@ -413,9 +413,10 @@ impl BigFloat {
             let rnd = prod_signif.lo > TIE
                 || (prod_signif.lo == TIE && prod_signif.hi.is_odd());
             prod_signif.hi.incr_if(rnd);
-            prod_signif.hi >>= (prod_signif.hi.leading_zeros() == 0) as u32;
+            let overflow = (prod_signif.hi.leading_zeros() == 0) as u32;
+            prod_signif.hi >>= overflow;
             self.signif = prod_signif.hi;
-            self.exp += other.exp + exp_adj;
+            self.exp += other.exp + exp_adj + overflow as i32;
         }
     }
 
-- 
2.43.0


From babbd4f6ec838e9be8f0bafe6c5aeb9947aa510e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:23 +0000
Subject: [PATCH 18/20] =?UTF-8?q?fix:=20arcsine=20and=20arccosine=20of=20n?=
 =?UTF-8?q?umbers=20close=20to=20=C2=B11?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/math/circular_fns/asin_acos.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/math/circular_fns/asin_acos.rs b/src/math/circular_fns/asin_acos.rs
index c6bf43c..0e3e534 100644
--- a/src/math/circular_fns/asin_acos.rs
+++ b/src/math/circular_fns/asin_acos.rs
@@ -96,9 +96,9 @@ impl f256 {
             return *self;
         }
         // Now we have ε < |self| < 1
-        // asin(x) = atan(x/√(1-x²))
+        // asin(x) = atan(x/√(1-x²)) = atan(x/√((1-x)⋅(1+x)))
         let mut x = BigFloat::from(self);
-        x.idiv(&(BigFloat::ONE - &x.square()).sqrt());
+        x.idiv(&((BigFloat::ONE - &x) * &(BigFloat::ONE + &x)).sqrt());
         Self::from(&atan(&x))
     }
 
@@ -121,9 +121,9 @@ impl f256 {
         //     return FRAC_PI_2;
         // }
         // Now we have ε < |self| < 1
-        // acos(x) = ½π - asin(x) = ½π - atan(x/√(1-x²))
+        // acos(x) = ½π - asin(x) = ½π - atan(x/√((1-x)⋅(1+x)))
         let mut x = BigFloat::from(self);
-        x.idiv(&(BigFloat::ONE - &x.square()).sqrt());
+        x.idiv(&((BigFloat::ONE - &x) * &(BigFloat::ONE + &x)).sqrt());
         Self::from(&(&FP492_FRAC_PI_2 - &atan(&x)))
     }
 }
-- 
2.43.0


From 2428b61a8d95899c9b7319105abf5a9886da7476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:23 +0000
Subject: [PATCH 19/20] fix: atan2 of tiny quotients

---
 src/math/circular_fns/atan.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/math/circular_fns/atan.rs b/src/math/circular_fns/atan.rs
index c70b4d4..1eaa9ef 100644
--- a/src/math/circular_fns/atan.rs
+++ b/src/math/circular_fns/atan.rs
@@ -9,7 +9,7 @@
 
 use core::cmp::max;
 
-use super::{approx_atan::approx_atan, BigFloat, FP492};
+use super::{approx_atan::approx_atan, BigFloat, FP492, TINY_EXP_LIMIT};
 use crate::{
     abs_bits, abs_bits_sticky,
     consts::{FRAC_PI_2, FRAC_PI_4, PI},
@@ -138,7 +138,12 @@ impl f256 {
         let mut atan = if abs_bits_y < abs_bits_x {
             let mut q = BigFloat::from(self);
             q.idiv(&BigFloat::from(other));
-            BigFloat::from(&approx_atan(&FP492::from(&q)))
+            if q.exp < TINY_EXP_LIMIT as i32 - EXP_BIAS as i32 {
+                // If |q| is very small, atan q = q.
+                q
+            } else {
+                BigFloat::from(&approx_atan(&FP492::from(&q)))
+            }
         } else if abs_bits_y > abs_bits_x {
             let mut q = BigFloat::from(other);
             q.idiv(&BigFloat::from(self));
-- 
2.43.0


From 15d89610daf50730a126a10850fb10ba84fa8312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:02 +0000
Subject: [PATCH 20/20] fix: remainder of multi-word division of exact
 multiples

---
 src/big_uint/uint_generic/binops/divrem.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/big_uint/uint_generic/binops/divrem.rs b/src/big_uint/uint_generic/binops/divrem.rs
index 50d4142..986960a 100644
--- a/src/big_uint/uint_generic/binops/divrem.rs
+++ b/src/big_uint/uint_generic/binops/divrem.rs
@@ -123,8 +123,8 @@ where
             match (&t).cmp(&self) {
                 Ordering::Greater => {
                     let mut d = &t - self;
-                    let (mut n, _) = d.div_rem(*rhs);
-                    n.incr();
+                    let (mut n, r) = d.div_rem(*rhs);
+                    n.incr_if(!r.is_zero());
                     debug_assert!(n.hi.is_zero());
                     quot -= &n;
                     d = *rhs;
-- 
2.43.0

