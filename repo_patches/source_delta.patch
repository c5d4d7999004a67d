From c13f910a6ffb0b055ef43e6f0316aa839c60fc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:22 +0000
Subject: [PATCH 01/40] fix: integer powers of negative decimals take their
 sign from the exponent parity

The running product started from minus one for a negative base, so (-2)^2 was
-4 and (-2)^0 was -1. The base was also squared once more after the last bit
of the exponent, overflowing on powers that fit.
---
 programs/hmmcl-sandbox/src/decimal.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/decimal.rs b/programs/hmmcl-sandbox/src/decimal.rs
index 8ee79bd..7ae6820 100644
--- a/programs/hmmcl-sandbox/src/decimal.rs
+++ b/programs/hmmcl-sandbox/src/decimal.rs
@@ -500,7 +500,7 @@ impl Pow<u128> for Decimal {
         let one = Decimal {
             value: self.denominator(),
             scale: self.scale,
-            negative: self.negative,
+            negative: false,
         };
 
         if exp == 0 {
@@ -516,7 +516,9 @@ impl Pow<u128> for Decimal {
                 result = result.mul(base);
             }
             current_exp /= 2;
-            base = base.mul(base);
+            if current_exp > 0 {
+                base = base.mul(base);
+            }
         }
         return result;
     }
-- 
2.43.0


From 79ecf71e2f777e9d1630bb535ac773f6eb2413ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:22 +0000
Subject: [PATCH 02/40] fix: rounding a negative decimal up to another scale
 keeps its sign

---
 programs/hmmcl-sandbox/src/decimal.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/decimal.rs b/programs/hmmcl-sandbox/src/decimal.rs
index 7ae6820..38f2370 100644
--- a/programs/hmmcl-sandbox/src/decimal.rs
+++ b/programs/hmmcl-sandbox/src/decimal.rs
@@ -145,13 +145,13 @@ impl Decimal {
             decimal.div_up(Self::new(
                 10u128.pow((self.scale.checked_sub(scale).unwrap()).try_into().unwrap()),
                 0,
-                self.negative,
+                false,
             ))
         } else {
             decimal.mul_up(Self::new(
                 10u128.pow((scale.checked_sub(self.scale).unwrap()).try_into().unwrap()),
                 0,
-                self.negative,
+                false,
             ))
         }
     }
-- 
2.43.0


From eb708ccb18747b25d176b79546da4b1741ea0795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:23 +0000
Subject: [PATCH 03/40] fix: comparisons treat a negative zero as zero

Products and rescaled values can carry the negative flag with a zero value;
such a zero compared as less than, and not equal to, an ordinary zero.
---
 programs/hmmcl-sandbox/src/decimal.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/decimal.rs b/programs/hmmcl-sandbox/src/decimal.rs
index 38f2370..6e66f9c 100644
--- a/programs/hmmcl-sandbox/src/decimal.rs
+++ b/programs/hmmcl-sandbox/src/decimal.rs
@@ -569,7 +569,7 @@ impl Compare<Decimal> for Decimal {
         if !(self.scale == other.scale) {
             return Err(ErrorCode::DifferentScale.into());
         } else {
-            Ok(self.value == other.value && self.negative == other.negative)
+            Ok(self.value == other.value && self.is_negative() == other.is_negative())
         }
     }
 
@@ -578,11 +578,11 @@ impl Compare<Decimal> for Decimal {
         if !(self.scale == other.scale) {
             return Err(ErrorCode::DifferentScale.into());
         } else {
-            if self.negative && other.negative {
+            if self.is_negative() && other.is_negative() {
                 Ok(self.value > other.value)
-            } else if self.negative && !other.negative {
+            } else if self.is_negative() && !other.is_negative() {
                 Ok(true)
-            } else if !self.negative && other.negative {
+            } else if !self.is_negative() && other.is_negative() {
                 Ok(false)
             } else {
                 Ok(self.value < other.value)
@@ -595,11 +595,11 @@ impl Compare<Decimal> for Decimal {
         if !(self.scale == other.scale) {
             return Err(ErrorCode::DifferentScale.into());
         } else {
-            if self.negative && other.negative {
+            if self.is_negative() && other.is_negative() {
                 Ok(self.value < other.value)
-            } else if self.negative && !other.negative {
+            } else if self.is_negative() && !other.is_negative() {
                 Ok(false)
-            } else if !self.negative && other.negative {
+            } else if !self.is_negative() && other.is_negative() {
                 Ok(true)
             } else {
                 Ok(self.value > other.value)
@@ -612,11 +612,11 @@ impl Compare<Decimal> for Decimal {
         if !(self.scale == other.scale) {
             return Err(ErrorCode::DifferentScale.into());
         } else {
-            if self.negative && other.negative {
+            if self.is_negative() && other.is_negative() {
                 Ok(self.value <= other.value)
-            } else if self.negative && !other.negative {
+            } else if self.is_negative() && !other.is_negative() {
                 Ok(false)
-            } else if !self.negative && other.negative {
+            } else if !self.is_negative() && other.is_negative() {
                 Ok(true)
             } else {
                 Ok(self.value >= other.value)
@@ -629,11 +629,11 @@ impl Compare<Decimal> for Decimal {
         if !(self.scale == other.scale) {
             return Err(ErrorCode::DifferentScale.into());
         } else {
-            if self.negative && other.negative {
+            if self.is_negative() && other.is_negative() {
                 Ok(self.value >= other.value)
-            } else if self.negative && !other.negative {
+            } else if self.is_negative() && !other.is_negative() {
                 Ok(true)
-            } else if !self.negative && other.negative {
+            } else if !self.is_negative() && other.is_negative() {
                 Ok(false)
             } else {
                 Ok(self.value <= other.value)
-- 
2.43.0


From f0dd28a0662095500e11d804310838f51bd9c346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:23 +0000
Subject: [PATCH 04/40] fix: the square root of a negative decimal is refused

---
 programs/hmmcl-sandbox/src/decimal.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/programs/hmmcl-sandbox/src/decimal.rs b/programs/hmmcl-sandbox/src/decimal.rs
index 6e66f9c..5ef38d8 100644
--- a/programs/hmmcl-sandbox/src/decimal.rs
+++ b/programs/hmmcl-sandbox/src/decimal.rs
@@ -999,6 +999,10 @@ impl Sqrt<Decimal> for Decimal {
         let zero = Decimal::new(0, self.scale, false);
         let one = Decimal::from_u128(1).to_scale(self.scale);
 
+        if self.is_negative() {
+            return Err(ErrorCode::SignedDecimalsNotSupported.into());
+        }
+
         if self.value.lt(&0u128) || self.value.gt(&u128::MAX) {
             return Err(ErrorCode::ExceedsRange.into());
         }
-- 
2.43.0


From fcac46cda0317b47d009c3384460b818c49e2aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:23 +0000
Subject: [PATCH 05/40] fix: converting a decimal that does not fit into an i32
 aborts instead of truncating

---
 programs/hmmcl-sandbox/src/decimal.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/decimal.rs b/programs/hmmcl-sandbox/src/decimal.rs
index 5ef38d8..4ec44a5 100644
--- a/programs/hmmcl-sandbox/src/decimal.rs
+++ b/programs/hmmcl-sandbox/src/decimal.rs
@@ -555,10 +555,13 @@ impl Into<f64> for Decimal {
 /// Convert a [Decimal] into a signed 32-bit integer.
 impl Into<i32> for Decimal {
     fn into(self) -> i32 {
-        let sign = if self.negative { -1i32 } else { 1i32 };
-        (self.value as i32)
+        let sign = if self.negative { -1i128 } else { 1i128 };
+        let value: i128 = self.value.try_into().expect("signed integer");
+        value
             .checked_mul(sign)
             .expect("signed integer")
+            .try_into()
+            .expect("signed integer")
     }
 }
 
-- 
2.43.0


From b7fc499c562ac02ec92e40b2b3991446dae7ee49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:23 +0000
Subject: [PATCH 06/40] fix: exponents 0.2 and 1.2 are not taken for 0.25 and
 1.25 at one decimal place

---
 programs/hmmcl-sandbox/src/decimal.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/decimal.rs b/programs/hmmcl-sandbox/src/decimal.rs
index 4ec44a5..f5fe575 100644
--- a/programs/hmmcl-sandbox/src/decimal.rs
+++ b/programs/hmmcl-sandbox/src/decimal.rs
@@ -469,13 +469,13 @@ impl Pow<Decimal> for Decimal {
             // e.g. x^0 = 1
             Some(x) if x.is_zero() => one,
             // e.g. x^0.25 = ⁴√x = √(√x) = sqrt(sqrt(x))
-            Some(x) if x.eq(zero_point_two_five).unwrap() => self.sqrt().unwrap().sqrt().unwrap(),
+            Some(x) if self.scale > 1 && x.eq(zero_point_two_five).unwrap() => self.sqrt().unwrap().sqrt().unwrap(),
             // e.g. x^0.5 = √x = sqrt(x)
             Some(x) if x.eq(zero_point_five).unwrap() => self.sqrt().unwrap(),
             // e.g. x^1 = x
             Some(x) if x.eq(one).unwrap() => self.clone(),
             // e.g. x^1.25 = x(√(√x)) = x(sqrt(sqrt(x)))
-            Some(x) if x.eq(one_point_two_five).unwrap() => {
+            Some(x) if self.scale > 1 && x.eq(one_point_two_five).unwrap() => {
                 self.mul(self.sqrt().unwrap().sqrt().unwrap())
             }
             // e.g. x^1.50 = x(√x) = x(sqrt(x))
-- 
2.43.0


From 5524bfb91745d5859af6d644371da73eabdf4481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:23 +0000
Subject: [PATCH 07/40] fix: the natural logarithm is accurate for small values
 and next to powers of two

The power of two that normalises the argument was computed at six decimal
places, so it was truncated below 2^-6 (and zero below 2^-19), and the exponent
came from a floating-point logarithm that rounds up just below a power of two.
---
 programs/hmmcl-sandbox/src/decimal.rs | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/decimal.rs b/programs/hmmcl-sandbox/src/decimal.rs
index f5fe575..05e7df8 100644
--- a/programs/hmmcl-sandbox/src/decimal.rs
+++ b/programs/hmmcl-sandbox/src/decimal.rs
@@ -944,17 +944,30 @@ impl Ln<Decimal> for Decimal {
 
         let scaled_out = self.to_compute_scale();
 
+        // ln(0) is undefined
+        if scaled_out.is_zero() {
+            return Err(ErrorCode::ExceedsRange.into());
+        }
+
         let ln_2_decimal = Decimal::new(693_147_180_559u128, 12, false);
 
-        let bit_length_decimal = self.bit_length().expect("bit_length");
+        // bring the value exactly into [1, 2) by a power of two: value = normalized * 2^bit_length
+        let one = Decimal::one();
+        let mut bit_length_decimal = Decimal::from_u64(0);
+        let mut normalized = scaled_out;
 
-        // TODO: calculate with higher compute scale when big_mul is implemented otherwise overflow
-        let max = Decimal::from_u64(2)
-            .to_scale(6)
-            .pow(bit_length_decimal.to_scale(6))
-            .to_compute_scale();
+        while normalized.value >= one.value.checked_mul(2).expect("two") {
+            bit_length_decimal.value += 1;
+            normalized.value = scaled_out.value >> bit_length_decimal.value;
+        }
+
+        while normalized.value < one.value {
+            bit_length_decimal.value += 1;
+            bit_length_decimal.negative = true;
+            normalized.value = scaled_out.value << bit_length_decimal.value;
+        }
 
-        let (s_0, t_0, lx_0) = log_table_value(scaled_out, max, 0);
+        let (s_0, t_0, lx_0) = log_table_value(normalized, one, 0);
         let (s_1, t_1, lx_1) = log_table_value(s_0, t_0, 1);
         let (s_2, t_2, lx_2) = log_table_value(s_1, t_1, 2);
         let (s_3, t_3, lx_3) = log_table_value(s_2, t_2, 3);
-- 
2.43.0


From 3d66b9ba09dc6f870b79574375b09328a97a0eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:23 +0000
Subject: [PATCH 08/40] fix: parsing a decimal keeps every digit and refuses
 malformed text with an error

A positive exponent smaller than the number of fractional digits dropped the
remaining digits, exponents wrapped at 256, and malformed or oversized text
panicked instead of returning an error.
---
 programs/hmmcl-sandbox/src/decimal.rs | 46 +++++++++++++++++----------
 1 file changed, 29 insertions(+), 17 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/decimal.rs b/programs/hmmcl-sandbox/src/decimal.rs
index 05e7df8..3511c9d 100644
--- a/programs/hmmcl-sandbox/src/decimal.rs
+++ b/programs/hmmcl-sandbox/src/decimal.rs
@@ -209,7 +209,10 @@ impl Decimal {
             Some(loc) => {
                 // slice up to `loc` and 1 after to skip the 'e' char
                 let (base, exp) = (&s[..loc], &s[loc + 1..]);
-                (base, i64::from_str(exp).unwrap())
+                (
+                    base,
+                    i64::from_str(exp).map_err(|_| ErrorCode::ParseError)?,
+                )
             }
         };
 
@@ -251,24 +254,33 @@ impl Decimal {
             }
         };
 
-        let scale = (decimal_offset - exp).abs() as u8;
+        if digits.is_empty() || !digits.bytes().all(|b| b.is_ascii_digit()) {
+            return Err(ErrorCode::ParseError.into());
+        }
 
-        if exp.is_positive() {
-            Ok(Decimal::new(
-                Decimal::from_str(base.as_str())
-                    .expect("decimal of base")
-                    .to_scale(exp.abs() as u8)
-                    .value,
-                0,
-                negative,
-            )
-            .to_scale(exp.abs() as u8))
+        let value =
+            u128::from_str_radix(&digits, radix).map_err(|_| ErrorCode::ExceedsRange)?;
+
+        if exp.is_positive() && exp >= decimal_offset {
+            // an integer, returned with as many decimal places as its exponent
+            let scale: u8 = exp
+                .try_into()
+                .map_err(|_| ErrorCode::ExceedsPrecisionRange)?;
+            let value = (exp - decimal_offset)
+                .checked_add(exp)
+                .and_then(|power| power.try_into().ok())
+                .and_then(|power| 10u128.checked_pow(power))
+                .and_then(|factor| value.checked_mul(factor))
+                .ok_or(ErrorCode::ExceedsRange)?;
+
+            Ok(Decimal::new(value, scale, negative))
         } else {
-            Ok(Decimal::new(
-                u128::from_str_radix(&digits, radix).unwrap(),
-                scale,
-                negative,
-            ))
+            let scale: u8 = decimal_offset
+                .checked_sub(exp)
+                .and_then(|scale| scale.try_into().ok())
+                .ok_or(ErrorCode::ExceedsPrecisionRange)?;
+
+            Ok(Decimal::new(value, scale, negative))
         }
     }
 }
-- 
2.43.0


From 938e2322e103866a4eea91586e1f0b803de2f265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:03 +0000
Subject: [PATCH 09/40] fix: the oracle-adjusted Y change at strength one has
 the sign of the move

---
 programs/hmmcl-sandbox/src/cl_pool/cl_math.rs       | 4 ++--
 programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs | 2 +-
 programs/hmmcl-sandbox/src/cl_python/v3_pool.py     | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs b/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
index 0212fb2..dc534b1 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
@@ -332,10 +332,10 @@ pub trait PoolMath {
             panic!("root-prices should not be nil");
         }
         if c.to_compute_scale().eq(one).unwrap() {
-            // l * rp_oracle * (rp_old / rp_new).ln()
+            // l * rp_oracle * (rp_new / rp_old).ln()
             let ln_rp_old = rp_old.ln().unwrap();
             let ln_rp_new = rp_new.ln().unwrap();
-            let log_of_ratio = ln_rp_old.sub(ln_rp_new).unwrap();
+            let log_of_ratio = ln_rp_new.sub(ln_rp_old).unwrap();
 
             return l.mul(rp_oracle).mul(log_of_ratio);
         } else {
diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs b/programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs
index f7dc987..e21be1d 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs
@@ -152,7 +152,7 @@ pub trait PoolMath {
     fn dy_from_l_drp_hmm(l: f64, rp_old: f64, rp_new: f64, c: f64, rp_oracle: f64) -> f64 {
         // chg of reserve y based of chg of price with hmm adj
         if c == 1.0 {
-            l * rp_oracle * (rp_old / rp_new).ln()
+            l * rp_oracle * (rp_new / rp_old).ln()
         } else {
             let omc = 1.0 - c; // one minus c
             l * rp_oracle.powf(c) * (rp_new.powf(omc) - rp_old.powf(omc)) / omc
diff --git a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
index ebe0968..93b0f51 100644
--- a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
+++ b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
@@ -264,7 +264,7 @@ class Pool:
     def dY_from_L_drP_hmm(L, rP_old, rP_new, C, rP_oracle):
         """Chg of reserve Y based of chg of price with HMM adj"""
         if C == 1.0:
-            return L * rP_oracle * math.log(rP_old / rP_new)
+            return L * rP_oracle * math.log(rP_new / rP_old)
         else:
             omc = 1.0 - C  # one minus C
             return L * (rP_oracle ** C) * (rP_new ** omc - rP_old ** omc) / omc
-- 
2.43.0


From 1d56d21f08b77a86d687b4f23b85825f69fb3d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:30 +0000
Subject: [PATCH 10/40] fix: converting a root-price to a tick is exact next to
 ticks and rounds up when asked to

---
 programs/hmmcl-sandbox/src/cl_pool/cl_math.rs | 42 ++++++++++++++-----
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs b/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
index dc534b1..991c589 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
@@ -39,28 +39,48 @@ pub trait PoolMath {
 
     fn rp_to_tick(rp: Decimal, left_to_right: bool) -> u128 {
         let base = Self::tick_base_root();
-        let tick_decimal = match left_to_right {
-            true => rp.ln().unwrap().div_up(base.ln().unwrap()),
-            false => rp.ln().unwrap().div(base.ln().unwrap()),
+        let tick_decimal = rp.ln().unwrap().div(base.ln().unwrap());
+        let guess = match tick_decimal.is_positive() {
+            true => tick_decimal.to_scale(0).value,
+            false => 0,
         };
-        tick_decimal.to_scale(0).value as u128
+        // the logarithm can be off by one next to a tick
+        Self::settle_tick(rp, left_to_right, guess.saturating_sub(1))
     }
 
     fn rp_to_tick_loop(rp: Decimal, left_to_right: bool, start: u128) -> u128 {
         let m = Self::tick_base_root();
         let mut rez = m.pow(start);
         let mut x = start;
-        let result = loop {
+        loop {
             rez = rez.mul(m);
             if rez.gte(rp).unwrap() {
-                match left_to_right {
-                    true => break x.checked_add(1).unwrap(),
-                    false => break x,
-                }
+                break;
             }
             x = x.checked_add(1).unwrap();
-        };
-        result
+        }
+        // iterated product and power round differently: settle on the power,
+        // which is what gives the root-price of a tick everywhere else
+        Self::settle_tick(rp, left_to_right, start.max(x.saturating_sub(1)))
+    }
+
+    fn settle_tick(rp: Decimal, left_to_right: bool, start: u128) -> u128 {
+        // from a start at or left of the solution: the greatest tick with root-price <= rp
+        // (if left_to_right is false) or the least tick with root-price >= rp (if true)
+        let mut x = start;
+        match left_to_right {
+            true => {
+                while Self::tick_to_rp(x).lt(rp).unwrap() {
+                    x = x.checked_add(1).unwrap();
+                }
+            }
+            false => {
+                while Self::tick_to_rp(x.checked_add(1).unwrap()).lte(rp).unwrap() {
+                    x = x.checked_add(1).unwrap();
+                }
+            }
+        }
+        x
     }
 
     fn tk_to_possible_tk(tick: u128, spacing: u128, left_to_right: bool) -> u128 {
-- 
2.43.0


From 370a0d3692336af9b4e08c0c9a0caa5dcbc4c0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:22 +0000
Subject: [PATCH 11/40] fix: a swap that ends exactly on an uncrossed tick
 keeps the current tick under it

---
 programs/hmmcl-sandbox/src/cl_pool/mod.rs       | 10 ++++++----
 programs/hmmcl-sandbox/src/cl_pool_float/mod.rs |  8 ++++++--
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/mod.rs b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
index ef9d991..2c8e202 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
@@ -699,7 +699,10 @@ impl<'a> Pool<'a> {
             fee_x = dx.sub(dx_max).unwrap(); // fee as expected
             cross = false;
             end_rp = Pool::rp_new_from_l_dx(liq, start_rp, done_dx);
-            end_t = Pool::rp_to_tick_loop(end_rp, false, goal_tick - 1);
+            end_t = match end_rp.lt(start_rp).unwrap() {
+                true => Pool::rp_to_tick_loop(end_rp, false, goal_tick),
+                false => self.glbl_tick(), // price did not move, neither does the tick
+            };
             // * this loop happens only once per trade if price ends in-between ticks
             // * tick is always on the left (round down after 'log')
 
@@ -961,9 +964,8 @@ impl<'a> Pool<'a> {
             fee_y = dy.sub(dy_max).unwrap(); // fee as expected
             cross = false;
             end_rp = Pool::rp_new_from_l_dy(liq, start_rp, done_dy);
-            // start seeking the goal from tick under current tick, that can be initialized
-            let seek_start = self.tick_to_possible_tick(self.glbl_tick() - 1, false);
-            end_t = Pool::rp_to_tick_loop(end_rp, false, seek_start);
+            // price may end exactly on the goal tick: as it is not crossed, stay under it
+            end_t = Pool::rp_to_tick_loop(end_rp, false, self.glbl_tick()).min(goal_tick - 1);
             // * this log is take only once per trade if price ends in-between ticks
             // * tick is always on the left (round down after log)
 
diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
index 4b13b2c..2bb4c88 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
@@ -564,7 +564,10 @@ impl<'a> Pool<'a> {
             fee_x = dx - dx_max; // fee as expected
             cross = false;
             end_rp = Pool::rp_new_from_l_dx(liq, start_rp, done_dx);
-            end_t = Pool::rp_to_tick(end_rp, false);
+            end_t = match end_rp < start_rp {
+                true => Pool::rp_to_tick(end_rp, false),
+                false => self.glbl_tick(), // price did not move, neither does the tick
+            };
             // * this log is take only once per trade if end between ticks
             // * tick is always on the left (round down after log)
 
@@ -803,7 +806,8 @@ impl<'a> Pool<'a> {
             fee_y = dy - dy_max; // fee as expected
             cross = false;
             end_rp = Pool::rp_new_from_l_dy(liq, start_rp, done_dy);
-            end_t = Pool::rp_to_tick(end_rp, false);
+            // price may end exactly on the goal tick: as it is not crossed, stay under it
+            end_t = Pool::rp_to_tick(end_rp, false).min(goal_tick - 1);
             // * this log is take only once per trade if end between ticks
             // * tick is always on the left (round down after log)
 
-- 
2.43.0


From 646a3f97f3ddfc9ba921812362a0fde437e5acd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:40 +0000
Subject: [PATCH 12/40] fix: rounding dust does not block a deposit, the last
 withdrawal or the last swap

---
 programs/hmmcl-sandbox/src/cl_pool/cl_math.rs | 15 +++++++++++++++
 programs/hmmcl-sandbox/src/cl_pool/mod.rs     |  9 +++++++++
 2 files changed, 24 insertions(+)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs b/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
index 991c589..9c649ae 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
@@ -15,6 +15,21 @@ pub trait PoolMath {
         negative: false,
     }; //* still NEEDED for rounding down withdrawals, avoid out_qty > reserve by tiny amt
 
+    const ADJ_DUST: Decimal = Decimal {
+        value: 1_000,
+        scale: COMPUTE_SCALE,
+        negative: false,
+    }; //* rounding noise that amounts may accumulate (absolute, and relative to amount)
+
+    fn cap_dust(amount: Decimal, limit: Decimal) -> Decimal {
+        // settle for the limit when amount exceeds it by no more than rounding noise
+        let dust = limit.mul(Self::ADJ_DUST).add(Self::ADJ_DUST).unwrap();
+        match amount.gt(limit).unwrap() && amount.lte(limit.add(dust).unwrap()).unwrap() {
+            true => limit,
+            false => amount,
+        }
+    }
+
     fn zero() -> Decimal {
         Decimal::default().to_compute_scale()
     }
diff --git a/programs/hmmcl-sandbox/src/cl_pool/mod.rs b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
index 2c8e202..0218098 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
@@ -541,6 +541,7 @@ impl<'a> Pool<'a> {
         };
 
         let x_in = Pool::x_from_l_rp_rng(liq, rp_used, rpa_used, rpb_used);
+        let x_in = Pool::cap_dust(x_in, x);
         if x_in.gt(x).unwrap() {
             panic!("used x amt cannot exceed provided amount");
         }
@@ -618,6 +619,10 @@ impl<'a> Pool<'a> {
         x_out = x_out.mul(adj_factor);
         y_out = y_out.mul(adj_factor);
 
+        // after successive roundings reserves may be short by a tiny amt
+        x_out = Pool::cap_dust(x_out, self.x);
+        y_out = Pool::cap_dust(y_out, self.y);
+
         // add fees on top of what user will receive
         let x_sent = x_out.add(fees_x).unwrap().add(adj_x).unwrap();
         let y_sent = y_out.add(fees_y).unwrap().add(adj_y).unwrap();
@@ -715,6 +720,8 @@ impl<'a> Pool<'a> {
         }
         // now figure out how much done_dY ( done Y quantity) and hmm_adj_Y (hmm related fee)
         let done_dy_cpmm = Pool::dy_from_l_drp(liq, start_rp, end_rp);
+        // after successive roundings reserves may be short by a tiny amt
+        let done_dy_cpmm = Pool::cap_dust(done_dy_cpmm.neg(), self.y).neg();
         if self.c.is_zero() || rp_oracle.is_zero() || rp_oracle.gte(start_rp).unwrap() {
             // also when rP_oracle is None (zero)
             // in cases where no oracle or no hmm c=0, we cannot adjust so we fall back to amm
@@ -978,6 +985,8 @@ impl<'a> Pool<'a> {
         }
         // now figure out how much done_dX and hmm_adj_X
         let done_dx_cpmm = Pool::dx_from_l_drp(liq, start_rp, end_rp);
+        // after successive roundings reserves may be short by a tiny amt
+        let done_dx_cpmm = Pool::cap_dust(done_dx_cpmm.neg(), self.x).neg();
 
         if self.c.is_zero() || rp_oracle.is_zero() || rp_oracle.lte(start_rp).unwrap() {
             // also also rP_oracle is None (zero)
-- 
2.43.0


From 8191bb49838b25fa0c3e4de9240bcfa866aa4d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:40 +0000
Subject: [PATCH 13/40] fix: the root-price after an X swap is rounded in
 favour of the pool

---
 programs/hmmcl-sandbox/src/cl_pool/cl_math.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs b/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
index 9c649ae..1c8ccce 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
@@ -397,17 +397,22 @@ pub trait PoolMath {
         // drp_inv = dx / l = (1/rp_new - 1/rp_old)
         // after solving for rp_new: rp_new = (l * rp_old) / (dx*rp_old + l)
 
-        let numerator = l.mul(rp_old);
+        // round price up, so that amount out is rounded down
+        let numerator = l.mul_up(rp_old);
         let denom = dx.mul(rp_old).add(l).unwrap();
         if denom.is_zero() {
             panic!("rp_new_from_l_dx : (dx*rp_old + l) should not be nil");
         }
 
-        let rez = numerator.div(denom);
+        let rez = numerator.div_up(denom);
         if rez.is_negative() {
             panic!("rp_new_from_l_dx : result rp should always be positive");
         }
-        rez
+        // rounding does not turn the price around
+        match dx.is_negative() {
+            true => rez,
+            false => rez.min(rp_old),
+        }
     }
 
     fn rp_new_from_l_dy(l: Decimal, rp_old: Decimal, dy: Decimal) -> Decimal {
-- 
2.43.0


From 435a804190bd29621b2353b374f4f8e67925b226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:16 +0000
Subject: [PATCH 14/40] fix: the average price guard on X swaps does not refuse
 trades over rounding

---
 programs/hmmcl-sandbox/src/cl_pool/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/mod.rs b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
index 0218098..1edeb94 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
@@ -764,8 +764,9 @@ impl<'a> Pool<'a> {
         }
         // avoid numerical noise for very small trades relative to liquidity
         if !done_dx.is_zero() && !done_dy.is_zero() {
-            let avg_price = done_dy.neg().div(done_dx.add(fee_x).unwrap());
-            if avg_price.gt(start_rp.pow(2)).unwrap() {
+            let dx_paid = done_dx.add(fee_x).unwrap();
+            let dx_worth = done_dy.neg().div(start_rp.pow(2));
+            if Pool::cap_dust(dx_worth, dx_paid).gt(dx_paid).unwrap() {
                 panic!("pool cannot buy X at a greater avg price than starting price");
             }
         }
-- 
2.43.0


From 3b0b0cc3bf8879f96dfef8008dfcbe3eed9aee30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:53 +0000
Subject: [PATCH 15/40] fix: a new position earns fees from its creation on,
 and only for its own range

---
 .../src/cl_pool/cl_components.rs              |  3 --
 programs/hmmcl-sandbox/src/cl_pool/mod.rs     | 36 +++++++++----------
 2 files changed, 17 insertions(+), 22 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/cl_components.rs b/programs/hmmcl-sandbox/src/cl_pool/cl_components.rs
index fef37b5..06e7dec 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/cl_components.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/cl_components.rs
@@ -196,9 +196,6 @@ impl PositionState {
         if liq.is_negative() {
             panic!("position liquidity cannot be negative");
         }
-        if fr_x.is_negative() || fr_y.is_negative() || hr_x.is_negative() || hr_y.is_negative() {
-            panic!("fee cannot be negative");
-        }
         Self {
             liq,
             fr_x,
diff --git a/programs/hmmcl-sandbox/src/cl_pool/mod.rs b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
index 1edeb94..34a6251 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
@@ -382,12 +382,9 @@ impl<'a> Pool<'a> {
         assert_eq!(sum_lwr, sum_upr);
         let fg = sum_lwr;
 
-        let fee_earned = fg.sub(f_blw_lwr).unwrap().sub(f_abv_upr).unwrap();
-        if fee_earned.is_negative() {
-            panic!("fees earned cannot be negative");
-        }
-
-        fee_earned
+        // may be negative, when ticks were initialized at different times. Only
+        // the change since a position was last touched is meaningful
+        fg.sub(f_blw_lwr).unwrap().sub(f_abv_upr).unwrap()
     }
 
     fn _set_position(
@@ -400,18 +397,25 @@ impl<'a> Pool<'a> {
         // handles all facets for updates a position for in the pool,
         // used for deposits (l>0), withdrawals (l<0)
         // compute uncollected fees f_u the poz is entitled to: first compute new FeeGrowthInside,
-        // to be written to position will be set to 0 by function if tick not initialized
+        // to be written to position. ticks need to be initialized for it to be comparable later
+        if liq_delta.is_positive() {
+            for tick in [lower_tick, upper_tick] {
+                if self.active_ticks.get(&tick).is_none() {
+                    self.initialize_tick(tick);
+                }
+            }
+        }
         let new_fr_x = self.fee_rng(lower_tick, upper_tick, 'x', 'f');
         let new_fr_y = self.fee_rng(lower_tick, upper_tick, 'y', 'f');
         let new_hr_x = self.fee_rng(lower_tick, upper_tick, 'x', 'h');
         let new_hr_y = self.fee_rng(lower_tick, upper_tick, 'y', 'h');
 
         // then get old fee value from when position was last touched.(set below)
-        // set to 0 as default for when new position
-        let mut old_fr_x = Self::zero();
-        let mut old_fr_y = Self::zero();
-        let mut old_hr_x = Self::zero();
-        let mut old_hr_y = Self::zero();
+        // new position starts from current value, as it did not earn anything before
+        let mut old_fr_x = new_fr_x;
+        let mut old_fr_y = new_fr_y;
+        let mut old_hr_x = new_hr_x;
+        let mut old_hr_y = new_hr_y;
         // liquidity to use for computing fee amounts (set below)
         let mut base = Self::zero();
 
@@ -427,13 +431,7 @@ impl<'a> Pool<'a> {
                 }
                 self.positions.insert(
                     key,
-                    PositionState::new(
-                        liq_delta,
-                        Self::zero(),
-                        Self::zero(),
-                        Self::zero(),
-                        Self::zero(),
-                    ),
+                    PositionState::new(liq_delta, new_fr_x, new_fr_y, new_hr_x, new_hr_y),
                 );
             }
             Some(poz) => {
-- 
2.43.0


From c0ead87255c3ff151849b416f46e4a0f1dfe9441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:03 +0000
Subject: [PATCH 16/40] fix: the oracle adjustment at strength one does not
 abort on the noise of the logarithm

---
 programs/hmmcl-sandbox/src/cl_pool/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/mod.rs b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
index 34a6251..e14bc55 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
@@ -747,6 +747,8 @@ impl<'a> Pool<'a> {
             panic!("HMM adjstment: possibilities should have been exhausted by now");
         }
 
+        // adjustment is never against the pool, whatever the noise in the logarithm
+        let done_dy = done_dy.max(done_dy_cpmm);
         hmm_adj_y = done_dy.sub(done_dy_cpmm).unwrap();
 
         if done_dy_cpmm.is_positive() {
@@ -1013,6 +1015,8 @@ impl<'a> Pool<'a> {
             panic!("HMM adjstment: possibilities should have been exhausted by now");
         }
 
+        // adjustment is never against the pool, whatever the noise in the logarithm
+        let done_dx = done_dx.max(done_dx_cpmm);
         hmm_adj_x = done_dx.sub(done_dx_cpmm).unwrap();
 
         if done_dx_cpmm.is_positive() {
-- 
2.43.0


From 0d1f51229d3ced59b9dc9b0328219f00ca784062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:57 +0000
Subject: [PATCH 17/40] fix: with a tick spacing a swap resumes from ticks that
 are not multiples of it

---
 programs/hmmcl-sandbox/src/cl_pool/mod.rs       | 1 +
 programs/hmmcl-sandbox/src/cl_pool_float/mod.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/mod.rs b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
index e14bc55..2c35d38 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
@@ -242,6 +242,7 @@ impl<'a> Pool<'a> {
 
         // get to initializable tick. we use False here to round down
         let start_tick = self.tick_to_possible_tick(start_t, false);
+        let glbl_tick = self.tick_to_possible_tick(glbl_tick, false);
 
         if start_tick == glbl_tick {
             // we've already technically crossed this tick (left-to-right) i.e.
diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
index 2bb4c88..96c9e91 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
@@ -209,6 +209,7 @@ impl<'a> Pool<'a> {
 
         // get to initializable tick. we use False here to round down
         let start_tick = self.tick_to_possible_tick(start_t, false);
+        let glbl_tick = self.tick_to_possible_tick(glbl_tick, false);
 
         if start_tick == glbl_tick {
             // we've already technically crossed this tick (left-to-right) i.e.
-- 
2.43.0


From 5342735c20a196f38d2569f52742898fab367478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:19 +0000
Subject: [PATCH 18/40] fix: a position is not opened without liquidity

---
 programs/hmmcl-sandbox/src/cl_pool/mod.rs       | 5 +++--
 programs/hmmcl-sandbox/src/cl_pool_float/mod.rs | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/mod.rs b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
index 2c35d38..10a568e 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
@@ -426,9 +426,10 @@ impl<'a> Pool<'a> {
 
         match self.positions.get_mut(&key) {
             None => {
-                if liq_delta.is_negative() {
+                if !liq_delta.is_positive() {
                     // abort if withdrawal liq exceeds position liquidity
-                    panic!("cannot newly provide negative liquidity");
+                    // or if there is nothing to open a position with
+                    panic!("can only newly provide positive liquidity");
                 }
                 self.positions.insert(
                     key,
diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
index 96c9e91..ec81b06 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
@@ -370,9 +370,10 @@ impl<'a> Pool<'a> {
 
         match self.positions.get_mut(&key) {
             None => {
-                if liq_delta < 0.0 {
+                if liq_delta <= 0.0 {
                     // abort if withdrawal liq exceeds position liquidity
-                    panic!("cannot newly provide negative liquidity");
+                    // or if there is nothing to open a position with
+                    panic!("can only newly provide positive liquidity");
                 }
                 self.positions
                     .insert(key, PositionState::new(liq_delta, 0.0, 0.0, 0.0, 0.0));
-- 
2.43.0


From d39a0b6b8e65288106eab2c1d94ea3d7cba1be5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:38 +0000
Subject: [PATCH 19/40] fix: a pool is not created with a strength or fee rate
 it cannot trade with

---
 programs/hmmcl-sandbox/src/cl_pool/mod.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/mod.rs b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
index 10a568e..944edb4 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
@@ -59,9 +59,20 @@ impl<'a> Pool<'a> {
         {
             panic!("hmm_c needs to be between 0 and 2");
         }
+        // the other strengths need powers (of c, and c - 1) that are not available
+        let c_is = |pct: u128| {
+            let c = Decimal::new(pct, 2, false).to_compute_scale();
+            c.eq(hmm_c.to_compute_scale()).unwrap()
+        };
+        if ![0, 100, 125, 150, 200].iter().any(|pct| c_is(*pct)) {
+            panic!("hmm_c needs to be one of 0, 1, 1.25, 1.5 or 2");
+        }
         if fee_rate.is_negative() {
             panic!("fee_rate cannot be with negative");
         }
+        if fee_rate.to_compute_scale().gte(Self::one()).unwrap() {
+            panic!("fee_rate needs to be below 1");
+        }
 
         let tk = Self::rp_to_possible_tk(bootstrap_rp, tick_spacing, false, 0);
         let rp = Self::tick_to_rp(tk);
-- 
2.43.0


From 3ae69260460465b7d76981cb1a1928f918349fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:10 +0000
Subject: [PATCH 20/40] fix: a new position of the float pool earns fees from
 its creation on, and only for its own range

---
 .../hmmcl-sandbox/src/cl_pool_float/mod.rs    | 32 +++++++++++++------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
index ec81b06..3945d8d 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
@@ -335,9 +335,9 @@ impl<'a> Pool<'a> {
         let (f_blw_lwr, f_abv_lwr) = self.fee_below_above(lower_tick, token, f_or_h);
         let (f_blw_upr, f_abv_upr) = self.fee_below_above(upper_tick, token, f_or_h);
 
-        // retrieve fg by summing up either tuple, they should match
-        assert_eq!(f_blw_lwr + f_abv_lwr, f_blw_upr + f_abv_upr);
+        // retrieve fg by summing up either tuple, they should match, save for float noise
         let fg = f_blw_lwr + f_abv_lwr;
+        assert!((fg - (f_blw_upr + f_abv_upr)).abs() <= 1.0e-9 * (1.0 + fg.abs()));
 
         fg - f_blw_lwr - f_abv_upr
     }
@@ -352,15 +352,23 @@ impl<'a> Pool<'a> {
         // handles all facets for updates a position for in the pool,
         // used for deposits (l>0), withdrawals (l<0)
         // compute uncollected fees f_u the poz is entitled to: first compute new FeeGrowthInside,
-        // to be written to position will be set to 0 by function if tick not initialized
+        // to be written to position. ticks need to be initialized for it to be comparable later
+        if liq_delta > 0.0 {
+            for tick in [lower_tick, upper_tick] {
+                if self.active_ticks.get(&tick).is_none() {
+                    self.initialize_tick(tick);
+                }
+            }
+        }
         let new_fr_x = self.fee_rng(lower_tick, upper_tick, 'x', 'f');
         let new_fr_y = self.fee_rng(lower_tick, upper_tick, 'y', 'f');
         let new_hr_x = self.fee_rng(lower_tick, upper_tick, 'x', 'h');
         let new_hr_y = self.fee_rng(lower_tick, upper_tick, 'y', 'h');
 
         // then get old value from when position was last touched.(set below)
-        // set to 0 as default for when new position
-        let (mut old_fr_x, mut old_fr_y, mut old_hr_x, mut old_hr_y) = (0.0, 0.0, 0.0, 0.0);
+        // new position starts from current value, as it did not earn anything before
+        let (mut old_fr_x, mut old_fr_y) = (new_fr_x, new_fr_y);
+        let (mut old_hr_x, mut old_hr_y) = (new_hr_x, new_hr_y);
         // liquidity to use for computing fee amounts (set below)
         let mut base = 0.0;
 
@@ -375,8 +383,10 @@ impl<'a> Pool<'a> {
                     // or if there is nothing to open a position with
                     panic!("can only newly provide positive liquidity");
                 }
-                self.positions
-                    .insert(key, PositionState::new(liq_delta, 0.0, 0.0, 0.0, 0.0));
+                self.positions.insert(
+                    key,
+                    PositionState::new(liq_delta, new_fr_x, new_fr_y, new_hr_x, new_hr_y),
+                );
             }
             Some(poz) => {
                 // get old value for feed from when position was last touched
@@ -405,9 +415,11 @@ impl<'a> Pool<'a> {
             }
         }
         // now calulate uncollected fees to be applied
-        let (f_u_x, f_u_y) = (new_fr_x - old_fr_x, new_fr_y - old_fr_y);
-        let (h_u_x, h_u_y) = (new_hr_x - old_hr_x, new_hr_y - old_hr_y);
-        assert!(f_u_x >= 0.0 && f_u_y >= 0.0 && h_u_x >= 0.0 && h_u_y >= 0.0);
+        // (float noise is not to be taken for a negative fee)
+        let f_u_x = (new_fr_x - old_fr_x).max(0.0);
+        let f_u_y = (new_fr_y - old_fr_y).max(0.0);
+        let h_u_x = (new_hr_x - old_hr_x).max(0.0);
+        let h_u_y = (new_hr_y - old_hr_y).max(0.0);
 
         // update tick states for lower and upper
         self.update_tick(lower_tick, liq_delta, false);
-- 
2.43.0


From de3879e94eda19b3d3bbbda0190bad52c694555b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:12 +0000
Subject: [PATCH 21/40] fix: converting a root-price to a tick in the float
 pool is exact next to ticks

---
 programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs b/programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs
index e21be1d..a0a6f3c 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs
@@ -12,9 +12,16 @@ pub trait PoolMath {
 
     fn rp_to_tick(rp: f64, left_to_right: bool) -> u32 {
         let base = Self::TICK_BASE.sqrt();
-        match left_to_right {
-            true => rp.log(base).ceil() as u32,
-            false => rp.log(base).floor() as u32,
+        let mut tick = rp.log(base).floor() as u32;
+        // settle float noise of the log against root-prices of adjacent ticks
+        if tick > 0 && Self::tick_to_rp(tick) > rp {
+            tick -= 1;
+        } else if tick < u32::MAX && Self::tick_to_rp(tick + 1) <= rp {
+            tick += 1;
+        }
+        match left_to_right && Self::tick_to_rp(tick) < rp {
+            true => tick + 1,
+            false => tick,
         }
     }
 
-- 
2.43.0


From 9244228e109f2a1878f3464e87cff3beb30f2d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:15 +0000
Subject: [PATCH 22/40] fix: an X swap in the float pool without an oracle
 price is not adjusted

---
 programs/hmmcl-sandbox/src/cl_pool_float/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
index 3945d8d..c2f5dac 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
@@ -594,8 +594,8 @@ impl<'a> Pool<'a> {
         }
         // now figure out how much done_dY and hmm_adj_Y
         let mut done_dy_cpmm = Pool::dy_from_l_drp(liq, start_rp, end_rp);
-        if self.c == 0.0 || rp_oracle >= start_rp {
-            // also when rP_oracle is None
+        if self.c == 0.0 || rp_oracle == 0.0 || rp_oracle >= start_rp {
+            // also when rP_oracle is None (zero)
             // in cases where no oracle or no hmm c=0, we cannot adjust so we fall back to amm
             // * when trade will make pool price diverge more from oracle,
             // * then we don't adjust (hmm adjust on convergence only)
-- 
2.43.0


From 8f7b04570e2afad5541a455dde21e2e4e9c71b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:17 +0000
Subject: [PATCH 23/40] fix: the oracle adjustment of the float pool does not
 abort on float noise

---
 programs/hmmcl-sandbox/src/cl_pool_float/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
index c2f5dac..0f5d0bb 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
@@ -621,6 +621,8 @@ impl<'a> Pool<'a> {
         done_dy *= 1.0 - Pool::ADJ_WHOLE_FILL;
         done_dy_cpmm *= 1.0 - Pool::ADJ_WHOLE_FILL;
 
+        // adjustment is never against the pool, whatever the float noise
+        let done_dy = done_dy.max(done_dy_cpmm);
         hmm_adj_y = done_dy - done_dy_cpmm;
 
         if done_dy_cpmm > 0.0 {
@@ -861,6 +863,8 @@ impl<'a> Pool<'a> {
         done_dx_cpmm *= 1.0 - Pool::ADJ_WHOLE_FILL;
         done_dx *= 1.0 - Pool::ADJ_WHOLE_FILL;
 
+        // adjustment is never against the pool, whatever the float noise
+        let done_dx = done_dx.max(done_dx_cpmm);
         hmm_adj_x = done_dx - done_dx_cpmm;
 
         if done_dx_cpmm > 0.0 {
-- 
2.43.0


From acc30760e0047096474554efde5a52c35655f30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:27 +0000
Subject: [PATCH 24/40] fix: float noise does not block deposits, withdrawals
 or swaps in the float pool

---
 .../src/cl_pool_float/cl_math.rs              |  9 ++++
 .../hmmcl-sandbox/src/cl_pool_float/mod.rs    | 51 ++++++++++++-------
 2 files changed, 41 insertions(+), 19 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs b/programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs
index a0a6f3c..a980d63 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs
@@ -4,8 +4,17 @@ pub trait PoolMath {
     const TICK_BASE: f64 = 1.0001;
     const ADJ_WHOLE_FILL: f64 = 1.0e-12;
     const ADJ_WITHDRAWAL: f64 = 1.0e-12;
+    const ADJ_DUST: f64 = 1.0e-9; // float noise that amounts may accumulate
     const FLOOR_LIQ: bool = true;
 
+    fn cap_dust(amount: f64, limit: f64) -> f64 {
+        // settle for the limit when amount exceeds it by no more than float noise
+        match amount > limit && amount <= limit + Self::ADJ_DUST * (1.0 + limit) {
+            true => limit,
+            false => amount,
+        }
+    }
+
     fn tick_to_rp(tick: u32) -> f64 {
         Self::TICK_BASE.sqrt().powf(tick as f64)
     }
diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
index 0f5d0bb..8fdabe4 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
@@ -430,7 +430,13 @@ impl<'a> Pool<'a> {
             self.add_glbl_liq(liq_delta);
         }
         // return uncollected fee amounts to offset/add in deposit/withdrawal
-        (base * f_u_x, base * f_u_y, base * h_u_x, base * h_u_y)
+        // (pots may be short by float noise)
+        (
+            Self::cap_dust(base * f_u_x, self.x_fee),
+            Self::cap_dust(base * f_u_y, self.y_fee),
+            Self::cap_dust(base * h_u_x, self.x_adj),
+            Self::cap_dust(base * h_u_y, self.y_adj),
+        )
     }
 
     pub fn deposit(&mut self, user_id: &'a str, x: f64, y: f64, rpa: f64, rpb: f64) {
@@ -458,6 +464,8 @@ impl<'a> Pool<'a> {
 
         let x_in = Pool::x_from_l_rp_rng(liq, rp_used, rpa_used, rpb_used);
         let y_in = Pool::y_from_l_rp_rng(liq, rp_used, rpa_used, rpb_used);
+        let x_in = Pool::cap_dust(x_in, x);
+        let y_in = Pool::cap_dust(y_in, y);
         if x_in > x {
             panic!("used x amt cannot exceed provided amount");
         }
@@ -512,6 +520,9 @@ impl<'a> Pool<'a> {
         // round down amount withdrawn if necessary, as precation
         x_out *= 1.0 - Pool::ADJ_WITHDRAWAL;
         y_out *= 1.0 - Pool::ADJ_WITHDRAWAL;
+        // reserves may be short by float noise
+        x_out = Pool::cap_dust(x_out, self.x);
+        y_out = Pool::cap_dust(y_out, self.y);
 
         // add fees on to what user will receive
         let x_sent = x_out + fees_x + adj_x;
@@ -577,7 +588,9 @@ impl<'a> Pool<'a> {
             done_dx = dx_max;
             fee_x = dx - dx_max; // fee as expected
             cross = false;
-            end_rp = Pool::rp_new_from_l_dx(liq, start_rp, done_dx);
+            // (float noise is not to move price backwards or past goal)
+            let new_rp = Pool::rp_new_from_l_dx(liq, start_rp, done_dx);
+            end_rp = new_rp.min(start_rp).max(rp_goal);
             end_t = match end_rp < start_rp {
                 true => Pool::rp_to_tick(end_rp, false),
                 false => self.glbl_tick(), // price did not move, neither does the tick
@@ -585,15 +598,11 @@ impl<'a> Pool<'a> {
             // * this log is take only once per trade if end between ticks
             // * tick is always on the left (round down after log)
 
-            if end_rp > start_rp {
-                panic!("expect end_rP < start_rP when pool given X");
-            }
-            if end_rp < rp_goal {
-                panic!("dont expect end_rP go beyond rP_goal (left) when able to wholy fill dX")
-            }
         }
         // now figure out how much done_dY and hmm_adj_Y
         let mut done_dy_cpmm = Pool::dy_from_l_drp(liq, start_rp, end_rp);
+        // reserves may be short by float noise
+        done_dy_cpmm = -Pool::cap_dust(-done_dy_cpmm, self.y);
         if self.c == 0.0 || rp_oracle == 0.0 || rp_oracle >= start_rp {
             // also when rP_oracle is None (zero)
             // in cases where no oracle or no hmm c=0, we cannot adjust so we fall back to amm
@@ -719,10 +728,13 @@ impl<'a> Pool<'a> {
                     hmm_adj_y = rez.send_hmm_adj();
                     fee_x = rez.recv_fee();
                     assert!(self.y + done_dy - hmm_adj_y >= 0.0);
-                    assert!(dx - swpd_dx >= done_dx + fee_x);
+                    assert!(Pool::cap_dust(done_dx + fee_x, dx - swpd_dx) <= dx - swpd_dx);
 
                     // update local totals
-                    swpd_dx += done_dx + fee_x; // gross for input token
+                    swpd_dx = match cross {
+                        true => dx.min(swpd_dx + done_dx + fee_x), // gross for input token
+                        false => dx,                               // wholly filled
+                    };
                     swpd_dy += done_dy; // net for output token
                     adjusted_dy += hmm_adj_y;
                     total_fee_x += fee_x;
@@ -821,21 +833,19 @@ impl<'a> Pool<'a> {
             done_dy = dy_max;
             fee_y = dy - dy_max; // fee as expected
             cross = false;
-            end_rp = Pool::rp_new_from_l_dy(liq, start_rp, done_dy);
+            // (float noise is not to move price backwards or past goal)
+            let new_rp = Pool::rp_new_from_l_dy(liq, start_rp, done_dy);
+            end_rp = new_rp.max(start_rp).min(rp_goal);
             // price may end exactly on the goal tick: as it is not crossed, stay under it
             end_t = Pool::rp_to_tick(end_rp, false).min(goal_tick - 1);
             // * this log is take only once per trade if end between ticks
             // * tick is always on the left (round down after log)
 
-            if end_rp < start_rp {
-                panic!("expect end_rP > start_rP when pool given Y");
-            }
-            if end_rp > rp_goal {
-                panic!("dont expect end_rP go beyond rP_goal (right) when able to wholy fill dY");
-            }
         }
         // now figure out how much done_dX and hmm_adj_X
         let mut done_dx_cpmm = Pool::dx_from_l_drp(liq, start_rp, end_rp);
+        // reserves may be short by float noise
+        done_dx_cpmm = -Pool::cap_dust(-done_dx_cpmm, self.x);
 
         if self.c == 0.0 || rp_oracle <= start_rp {
             // also also rP_oracle is None
@@ -962,11 +972,14 @@ impl<'a> Pool<'a> {
                     hmm_adj_x = rez.send_hmm_adj();
                     fee_y = rez.recv_fee();
                     assert!(self.x + done_dx - hmm_adj_x >= 0.0);
-                    assert!(dy - swpd_dy >= done_dy + fee_y);
+                    assert!(Pool::cap_dust(done_dy + fee_y, dy - swpd_dy) <= dy - swpd_dy);
 
                     // update local totals
                     swpd_dx += done_dx; // net for output token
-                    swpd_dy += done_dy + fee_y; // gross for input token
+                    swpd_dy = match cross {
+                        true => dy.min(swpd_dy + done_dy + fee_y), // gross for input token
+                        false => dy,                               // wholly filled
+                    };
                     adjusted_dx += hmm_adj_x;
                     total_fee_y += fee_y;
                     curr_t = end_t;
-- 
2.43.0


From 1a9e5a1f9cf829d3e85842f0841234da57c370d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:30 +0000
Subject: [PATCH 25/40] fix: a partial withdrawal from the float pool keeps
 liquidity in whole units

---
 programs/hmmcl-sandbox/src/cl_pool_float/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
index 8fdabe4..bfb7f8f 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
@@ -501,6 +501,8 @@ impl<'a> Pool<'a> {
         if liq < 0.0 {
             panic!("can only withdraw positive amounts")
         }
+        // liquidity comes in whole units, as for deposits, so that it adds up exactly
+        let liq = if Self::FLOOR_LIQ { liq.floor() } else { liq };
 
         // calculate ticks that will be used to track position
         let lower_tick = self.rp_to_possible_tick(rpa, false);
-- 
2.43.0


From 0e19009f7895141a919f87b3156ce39b9153852e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:32 +0000
Subject: [PATCH 26/40] fix: the float pool refuses empty and inverted ranges

---
 programs/hmmcl-sandbox/src/cl_pool_float/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
index bfb7f8f..c2a6863 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
@@ -448,6 +448,9 @@ impl<'a> Pool<'a> {
         // calculate ticks that will be used to track position
         let lower_tick = self.rp_to_possible_tick(rpa, false);
         let upper_tick = self.rp_to_possible_tick(rpb, false);
+        if lower_tick >= upper_tick {
+            panic!("lower bound of range must be below upper bound");
+        }
         let rpa_used = Pool::tick_to_rp(lower_tick);
         let rpb_used = Pool::tick_to_rp(upper_tick);
         let rp_used = self.glbl_rp();
@@ -507,6 +510,9 @@ impl<'a> Pool<'a> {
         // calculate ticks that will be used to track position
         let lower_tick = self.rp_to_possible_tick(rpa, false);
         let upper_tick = self.rp_to_possible_tick(rpb, false);
+        if lower_tick >= upper_tick {
+            panic!("lower bound of range must be below upper bound");
+        }
         let rpa_used = Pool::tick_to_rp(lower_tick);
         let rpb_used = Pool::tick_to_rp(upper_tick);
 
-- 
2.43.0


From fce5c74032f529f9fc34bf08f01f7a7caec66545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:05 +0000
Subject: [PATCH 27/40] fix: the on-chain current tick does not overwrite the
 update of an equal lower or upper tick

---
 programs/hmmcl-sandbox/src/instructions/deposit.rs  | 1 -
 programs/hmmcl-sandbox/src/instructions/withdraw.rs | 1 -
 2 files changed, 2 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/instructions/deposit.rs b/programs/hmmcl-sandbox/src/instructions/deposit.rs
index 3c6dbcc..9621313 100644
--- a/programs/hmmcl-sandbox/src/instructions/deposit.rs
+++ b/programs/hmmcl-sandbox/src/instructions/deposit.rs
@@ -66,7 +66,6 @@ pub struct Deposit<'info> {
     pub upper_tick_state: Box<Account<'info, TickState>>,
 
     #[account(
-        mut,
         seeds = [b"tick", pool_state.key().as_ref(), current_tick.to_le_bytes().as_ref()],
         bump = current_tick_state.bump,
         constraint = current_tick_state.tick == current_tick,
diff --git a/programs/hmmcl-sandbox/src/instructions/withdraw.rs b/programs/hmmcl-sandbox/src/instructions/withdraw.rs
index 4af12c6..8aeea26 100644
--- a/programs/hmmcl-sandbox/src/instructions/withdraw.rs
+++ b/programs/hmmcl-sandbox/src/instructions/withdraw.rs
@@ -68,7 +68,6 @@ pub struct Withdraw<'info> {
     pub upper_tick_state: Box<Account<'info, TickState>>,
 
     #[account(
-        mut,
         seeds = [b"tick", pool_state.key().as_ref(), current_tick.to_le_bytes().as_ref()],
         bump = current_tick_state.bump,
         constraint = current_tick_state.tick == current_tick,
-- 
2.43.0


From 029cd728e28338237eea2ca4b86d2e378621a393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:05 +0000
Subject: [PATCH 28/40] fix: an on-chain deposit is debited the full value of
 its liquidity

---
 programs/hmmcl-sandbox/src/instructions/deposit.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/instructions/deposit.rs b/programs/hmmcl-sandbox/src/instructions/deposit.rs
index 9621313..d2df1b7 100644
--- a/programs/hmmcl-sandbox/src/instructions/deposit.rs
+++ b/programs/hmmcl-sandbox/src/instructions/deposit.rs
@@ -304,18 +304,18 @@ pub fn handle(
     // transfer to vault
     token::transfer(
         ctx.accounts.transfer_user_token_x_to_vault(),
-        x_debited.abs(),
+        x_debited.abs_up(),
     )?;
 
     // transfer to vault
     token::transfer(
         ctx.accounts.transfer_user_token_y_to_vault(),
-        y_debited.abs(),
+        y_debited.abs_up(),
     )?;
 
     emit!(LiquidityAdded {
-        tokens_x_transferred: x_debited.abs(),
-        tokens_y_transferred: y_debited.abs(),
+        tokens_x_transferred: x_debited.abs_up(),
+        tokens_y_transferred: y_debited.abs_up(),
         lp_tokens_minted: liquidity_delta.abs(),
     });
 
-- 
2.43.0


From 8a4e5e76c7ac67fa87199f902b5314d097216db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:05 +0000
Subject: [PATCH 29/40] fix: rounding dust does not refuse an on-chain deposit

---
 programs/hmmcl-sandbox/src/instructions/deposit.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/programs/hmmcl-sandbox/src/instructions/deposit.rs b/programs/hmmcl-sandbox/src/instructions/deposit.rs
index d2df1b7..e980c1e 100644
--- a/programs/hmmcl-sandbox/src/instructions/deposit.rs
+++ b/programs/hmmcl-sandbox/src/instructions/deposit.rs
@@ -211,9 +211,12 @@ pub fn handle(
         tick_bitmap.activate_tick(40000); // just mock numbers, to be fixed after 'spacing' implemented
     }
 
+    // rounding noise should not take the amounts used over the amounts offered
     let x_in = Pool::x_from_l_rp_rng(liquidity_delta, rp_used, rpa_used, rpb_used);
+    let x_in = Pool::cap_dust(x_in, x);
 
     let y_in = Pool::y_from_l_rp_rng(liquidity_delta, rp_used, rpa_used, rpb_used);
+    let y_in = Pool::cap_dust(y_in, y);
 
     // Deal with fee accounting
     let old_fee = ctx.accounts.position_state.last_collected_fee;
-- 
2.43.0


From 864d10e90a071614615f433af1f135e25304c516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:59 +0000
Subject: [PATCH 30/40] fix: the prototype prices deposits and withdrawals at
 the current price, not at its tick

---
 .../hmmcl-sandbox/src/cl_python/v3_pool.py     | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
index 93b0f51..ba3b68e 100644
--- a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
+++ b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
@@ -605,17 +605,19 @@ class Pool:
         lower_tick = self.rP_to_possible_tick(rPa, left_to_right=False)
         upper_tick = self.rP_to_possible_tick(rPb, left_to_right=False)
 
-        tk = self.global_state.tick
+        rP = self.global_state.rP
         # TODO should we use Oracle price here instead? or real price as param
         # ? only when no liquidity in range?
 
-        liq = Pool._liq_from_x_y_rP_rng(x, y, tk, lower_tick, upper_tick)
+        rPa_used = Pool.tick_to_rP(lower_tick)
+        rPb_used = Pool.tick_to_rP(upper_tick)
+        liq = Pool.liq_from_x_y_rP_rng(x, y, rP, rPa_used, rPb_used)
         # round down to avoid float rounding vulnerabilities
         # TODO choose what precision to round down to.
         liq = math.floor(liq)
 
-        x_in = Pool._x_from_L_rP_rng(liq, tk, lower_tick, upper_tick)
-        y_in = Pool._y_from_L_rP_rng(liq, tk, lower_tick, upper_tick)
+        x_in = Pool.x_from_L_rP_rng(liq, rP, rPa_used, rPb_used)
+        y_in = Pool.y_from_L_rP_rng(liq, rP, rPa_used, rPb_used)
         assert x_in <= x, "used x amt cannot excess provided amount"
         assert y_in <= y, "used y amt cannot excess provided amount"
 
@@ -650,12 +652,14 @@ class Pool:
             user_id, lower_tick, upper_tick, liq_delta=-liq
         )
 
-        tk = self.global_state.tick
+        rP = self.global_state.rP
         # TODO should we use Oracle price here instead? or real price as param
         # ? only when no liquidity in range?
 
-        x_out = Pool._x_from_L_rP_rng(liq, tk, lower_tick, upper_tick)
-        y_out = Pool._y_from_L_rP_rng(liq, tk, lower_tick, upper_tick)
+        rPa_used = Pool.tick_to_rP(lower_tick)
+        rPb_used = Pool.tick_to_rP(upper_tick)
+        x_out = Pool.x_from_L_rP_rng(liq, rP, rPa_used, rPb_used)
+        y_out = Pool.y_from_L_rP_rng(liq, rP, rPa_used, rPb_used)
         # round down amount withdrawn if necessary, as precation
         x_out *= 1 - Pool.ADJ_WITHDRAWAL
         y_out *= 1 - Pool.ADJ_WITHDRAWAL
-- 
2.43.0


From 1efa335defd63e4ed40ca9bcf42ffc1157c750b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:00 +0000
Subject: [PATCH 31/40] fix: the prototype's right limit with a tick spacing

---
 programs/hmmcl-sandbox/src/cl_python/v3_pool.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
index ba3b68e..f4ca9de 100644
--- a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
+++ b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
@@ -366,6 +366,7 @@ class Pool:
         # get to initializable tick
         start_tick = self.tick_to_possible_tick(start_t, left_to_right=False)
         # we use False here to round down
+        glbl_tick = self.tick_to_possible_tick(glbl_tick, left_to_right=False)
         if start_tick == glbl_tick:
             # we've already technically crossed this tick (left-to-right) i.e.
             # the liquidity corresponding to this tick [start_tick, next_tick)
-- 
2.43.0


From 190eba8c18d21a86a085b655ce6302f358c7ceb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:00 +0000
Subject: [PATCH 32/40] fix: positions of the prototype do not collect fees
 from before they were opened

---
 .../hmmcl-sandbox/src/cl_python/v3_pool.py     | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
index f4ca9de..22d4995 100644
--- a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
+++ b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
@@ -526,7 +526,11 @@ class Pool:
         used for deposits (l>0), withdrawals (l<0)"""
         # compute the uncollected fees f_u the poz is entitled to
         # first compute new FeeGrowthInside, to be written to position
-        # will be set to 0 by function if tick not initialized
+        # ticks need to be initialized for it to be comparable later
+        if liq_delta > 0.0:
+            for tick in (lower_tick, upper_tick):
+                if tick not in self.active_ticks:
+                    self.initialize_tick(tick)
         new_fr_x = self.fee_rng(lower_tick, upper_tick, for_x=True)
         new_fr_y = self.fee_rng(lower_tick, upper_tick, for_x=False)
 
@@ -534,9 +538,9 @@ class Pool:
         new_hr_y = self.fee_rng(lower_tick, upper_tick, for_x=False, swp=False)
 
         # then get old value from when position was last touched.(set below)
-        # set to 0 as default for when new position
-        old_fr_x, old_fr_y = 0.0, 0.0
-        old_hr_x, old_hr_y = 0.0, 0.0
+        # new position starts from current value, it earned nothing before
+        old_fr_x, old_fr_y = new_fr_x, new_fr_y
+        old_hr_x, old_hr_y = new_hr_x, new_hr_y
         # liquidity to use for computing fee amounts (set below)
         base = 0.0
 
@@ -551,7 +555,11 @@ class Pool:
                 raise Exception("cannot newly provide negative liquidity")
             # creates a new position
             self.positions[key] = PositionState(
-                liq=liq_delta, fr_x=0.0, fr_y=0.0, hr_x=0.0, hr_y=0.0
+                liq=liq_delta,
+                fr_x=new_fr_x,
+                fr_y=new_fr_y,
+                hr_x=new_hr_x,
+                hr_y=new_hr_y,
             )
         else:
             # get old value for feed from when position was last touched
-- 
2.43.0


From 4375f5825a7a2abef47532ebb031a2d160dcdde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:00 +0000
Subject: [PATCH 33/40] fix: the prototype refuses empty positions and inverted
 ranges

---
 programs/hmmcl-sandbox/src/cl_python/v3_pool.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
index 22d4995..4d2123f 100644
--- a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
+++ b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
@@ -550,9 +550,10 @@ class Pool:
         poz: PositionState = self.positions.get(key, None)
 
         if poz is None:
-            if liq_delta < 0.0:
+            if liq_delta <= 0.0:
                 # abort if withdrawal liq exceeds position liquidity
-                raise Exception("cannot newly provide negative liquidity")
+                # or if there is nothing to open a position with
+                raise Exception("can only newly provide positive liquidity")
             # creates a new position
             self.positions[key] = PositionState(
                 liq=liq_delta,
@@ -613,6 +614,7 @@ class Pool:
         # calculate ticks that will be used to track position
         lower_tick = self.rP_to_possible_tick(rPa, left_to_right=False)
         upper_tick = self.rP_to_possible_tick(rPb, left_to_right=False)
+        assert lower_tick < upper_tick, "lower bound must be below upper"
 
         rP = self.global_state.rP
         # TODO should we use Oracle price here instead? or real price as param
@@ -656,6 +658,7 @@ class Pool:
         # calculate ticks that will be used to track position
         lower_tick = self.rP_to_possible_tick(rPa, left_to_right=False)
         upper_tick = self.rP_to_possible_tick(rPb, left_to_right=False)
+        assert lower_tick < upper_tick, "lower bound must be below upper"
 
         fees_x, fees_y, adj_x, adj_y = self._set_position(
             user_id, lower_tick, upper_tick, liq_delta=-liq
-- 
2.43.0


From 0ce908735884b8aed908456ac8eaf89f0016f1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:00 +0000
Subject: [PATCH 34/40] fix: withdrawals of the prototype come in whole units
 of liquidity like deposits

---
 programs/hmmcl-sandbox/src/cl_python/v3_pool.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
index 4d2123f..c5d0bde 100644
--- a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
+++ b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
@@ -654,6 +654,8 @@ class Pool:
     def withdraw(self, user_id, liq, rPa, rPb):
         """interface to withdraw liquidity from pool"""
         assert liq >= 0.0
+        # liquidity in whole units as for deposits, so that it adds up exactly
+        liq = math.floor(liq)
 
         # calculate ticks that will be used to track position
         lower_tick = self.rP_to_possible_tick(rPa, left_to_right=False)
-- 
2.43.0


From b8b6a925b1d069259ab0ee3843f8559dd921cb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:00 +0000
Subject: [PATCH 35/40] fix: a swap of the prototype that ends on its goal tick
 stays under it

---
 .../hmmcl-sandbox/src/cl_python/v3_pool.py    | 28 +++++++------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
index c5d0bde..05609f1 100644
--- a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
+++ b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
@@ -734,19 +734,16 @@ class Pool:
             done_dX = dX_max
             fee_X = dX - dX_max  # fee as expected
             cross = False
+            # (float noise is not to move price backwards or past goal)
             end_rP = Pool.rP_new_from_L_dX(L, start_rP, done_dX)
-            end_t = Pool.rP_to_tick(end_rP, False)
+            end_rP = max(min(end_rP, start_rP), rP_goal)
+            if end_rP < start_rP:
+                end_t = Pool.rP_to_tick(end_rP, False)
+            else:  # price did not move, neither does the tick
+                end_t = self.global_state.tick
             # * this log is take only once per trade if end between ticks
             # * tick is always on the left (round down after log)
 
-            if end_rP > start_rP:
-                raise Exception("expect end_rP < start_rP when pool given X")
-            if end_rP < rP_goal:
-                raise Exception(
-                    "dont expect end_rP go beyond rP_goal (tick on the left) "
-                    + "when able to do a whole fill of dX"
-                )
-
         # now figure out how much done_dY and hmm_adj_Y
         done_dY_amm = Pool.dY_from_L_drP(L=L, rP_old=start_rP, rP_new=end_rP)
         if rP_oracle is None or self.C == 0.0 or rP_oracle >= start_rP:
@@ -946,19 +943,14 @@ class Pool:
             done_dY = dY_max
             fee_Y = dY - dY_max  # fee as expected
             cross = False
+            # (float noise is not to move price backwards or past goal)
             end_rP = Pool.rP_new_from_L_dY(L, start_rP, done_dY)
-            end_t = Pool.rP_to_tick(end_rP, False)
+            end_rP = min(max(end_rP, start_rP), rP_goal)
+            # price may end exactly on goal tick: not crossed, stay under it
+            end_t = min(Pool.rP_to_tick(end_rP, False), goal_tick - 1)
             # * this log is take only once per trade if end between ticks
             # * tick is always on the left (round down after log)
 
-            if end_rP < start_rP:
-                raise Exception("expect end_rP > start_rP when pool given Y")
-            if end_rP > rP_goal:
-                raise Exception(
-                    "dont expect end_rP go beyond rP_goal (tick on the right) "
-                    + "when able to do a whole fill of dY"
-                )
-
         # now figure out how much done_dX and hmm_adj_X
         done_dX_amm = Pool.dX_from_L_drP(L=L, rP_old=start_rP, rP_new=end_rP)
         if rP_oracle is None or self.C == 0.0 or rP_oracle <= start_rP:
-- 
2.43.0


From bb2287bd0afb4e15d099b4845c6f6158258b35d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:00 +0000
Subject: [PATCH 36/40] fix: float noise of the prototype's logarithm next to a
 tick

---
 programs/hmmcl-sandbox/src/cl_python/v3_pool.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
index 05609f1..87bc92a 100644
--- a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
+++ b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
@@ -287,10 +287,15 @@ class Pool:
     @staticmethod
     def rP_to_tick(rP, left_to_right=False):
         d = math.pow(Pool.TICK_BASE, 1 / 2)
-        if left_to_right is True:
-            return math.ceil(math.log(rP, d))
-        else:
-            return math.floor(math.log(rP, d))
+        tick = math.floor(math.log(rP, d))
+        # settle float noise of the log against root-prices of adjacent ticks
+        if Pool.tick_to_rP(tick) > rP:
+            tick -= 1
+        elif Pool.tick_to_rP(tick + 1) <= rP:
+            tick += 1
+        if left_to_right is True and Pool.tick_to_rP(tick) < rP:
+            tick += 1
+        return tick
 
     # TODO add memo() method which saves states b4 swap/deposit etc
     # + and reinstates them if exception raised at any point during op
-- 
2.43.0


From cd224696095b189575c6b5868bc0bf5db4b872ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:00 +0000
Subject: [PATCH 37/40] fix: float noise does not make the prototype refuse
 operations

---
 .../hmmcl-sandbox/src/cl_python/v3_pool.py    | 57 ++++++++++++++-----
 1 file changed, 44 insertions(+), 13 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
index 87bc92a..d194b98 100644
--- a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
+++ b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
@@ -68,6 +68,7 @@ class Pool:
     TICK_BASE = 1.0001
     ADJ_WHOLE_FILL = 1e-12
     ADJ_WITHDRAWAL = 0e-8
+    ADJ_DUST = 1e-9  # float noise that amounts may accumulate
 
     def __init__(
         self,
@@ -144,6 +145,13 @@ class Pool:
             for k, v in self.positions.items():
                 print(f"poz '{k}': {v}")
 
+    @staticmethod
+    def cap_dust(amount, limit):
+        """settle for limit if amount exceeds it by float noise at most"""
+        if limit < amount <= limit + Pool.ADJ_DUST * (1.0 + limit):
+            return limit
+        return amount
+
     @staticmethod
     def liq_x_only(x, rPa, rPb):
         """Lx : liquidity amount when liquidity fully composed of  token x
@@ -520,9 +528,10 @@ class Pool:
         f_blw_lwr, f_abv_lwr = self.fee_below_above(lower_tick, for_x, swp)
         f_blw_upr, f_abv_upr = self.fee_below_above(upper_tick, for_x, swp)
 
-        # retrieve fg by summing up either tuple, they should match
-        assert f_blw_lwr + f_abv_lwr == f_blw_upr + f_abv_upr
+        # retrieve fg by summing up either tuple, they should match,
+        # save for float noise
         fg = f_blw_lwr + f_abv_lwr
+        assert abs(fg - (f_blw_upr + f_abv_upr)) <= 1e-9 * (1.0 + abs(fg))
 
         return fg - f_blw_lwr - f_abv_upr
 
@@ -590,12 +599,11 @@ class Pool:
                     hr_y=new_hr_y,
                 )
         # now calulate uncollected fees to be applied
-        f_u_x = new_fr_x - old_fr_x
-        f_u_y = new_fr_y - old_fr_y
-        h_u_x = new_hr_x - old_hr_x
-        h_u_y = new_hr_y - old_hr_y
-        assert f_u_x >= 0.0 and f_u_y >= 0.0
-        assert h_u_x >= 0.0 and h_u_y >= 0.0
+        # (float noise is not to be taken for a negative fee)
+        f_u_x = max(new_fr_x - old_fr_x, 0.0)
+        f_u_y = max(new_fr_y - old_fr_y, 0.0)
+        h_u_x = max(new_hr_x - old_hr_x, 0.0)
+        h_u_y = max(new_hr_y - old_hr_y, 0.0)
 
         # update tick states for lower and upper
         self.update_tick(lower_tick, liq_delta, upper=False)
@@ -609,7 +617,13 @@ class Pool:
             self.global_state.L += liq_delta
 
         # return uncollected fee amounts to offset/add in deposit/withdrawal
-        return base * f_u_x, base * f_u_y, base * h_u_x, base * h_u_y
+        # (pots may be short by float noise)
+        return (
+            Pool.cap_dust(base * f_u_x, self.X_fee),
+            Pool.cap_dust(base * f_u_y, self.Y_fee),
+            Pool.cap_dust(base * h_u_x, self.X_adj),
+            Pool.cap_dust(base * h_u_y, self.Y_adj),
+        )
 
     def deposit(self, user_id, x, y, rPa, rPb):
         """interface to deposit liquidity in pool & give change if necessary"""
@@ -634,6 +648,8 @@ class Pool:
 
         x_in = Pool.x_from_L_rP_rng(liq, rP, rPa_used, rPb_used)
         y_in = Pool.y_from_L_rP_rng(liq, rP, rPa_used, rPb_used)
+        x_in = Pool.cap_dust(x_in, x)
+        y_in = Pool.cap_dust(y_in, y)
         assert x_in <= x, "used x amt cannot excess provided amount"
         assert y_in <= y, "used y amt cannot excess provided amount"
 
@@ -682,6 +698,9 @@ class Pool:
         # round down amount withdrawn if necessary, as precation
         x_out *= 1 - Pool.ADJ_WITHDRAWAL
         y_out *= 1 - Pool.ADJ_WITHDRAWAL
+        # reserves may be short by float noise
+        x_out = Pool.cap_dust(x_out, self.X)
+        y_out = Pool.cap_dust(y_out, self.Y)
 
         # add fees on to what user will receive
         x_sent = x_out + fees_x + adj_x
@@ -751,6 +770,8 @@ class Pool:
 
         # now figure out how much done_dY and hmm_adj_Y
         done_dY_amm = Pool.dY_from_L_drP(L=L, rP_old=start_rP, rP_new=end_rP)
+        # reserves may be short by float noise
+        done_dY_amm = -Pool.cap_dust(-done_dY_amm, self.Y)
         if rP_oracle is None or self.C == 0.0 or rP_oracle >= start_rP:
             # 1st two cases cannot adjust so fall back to amm
             # * when trade will make pool price diverge more from oracle,
@@ -790,6 +811,8 @@ class Pool:
         done_dY *= 1 - Pool.ADJ_WHOLE_FILL
         done_dY_amm *= 1 - Pool.ADJ_WHOLE_FILL
 
+        # adjustment is never against the pool, whatever the float noise
+        done_dY = max(done_dY, done_dY_amm)
         hmm_adj_Y = done_dY - done_dY_amm
 
         if done_dY_amm > 0.0:
@@ -864,9 +887,11 @@ class Pool:
                 rP_oracle=rP_oracle,
             )
             assert self.Y + done_dY - hmm_adj_Y >= 0.0
-            assert dX - swpd_dX >= done_dX + fee_X
+            dX_left = dX - swpd_dX
+            assert Pool.cap_dust(done_dX + fee_X, dX_left) <= dX_left
 
-            swpd_dX += done_dX + fee_X  # gross for input token
+            # gross for input token
+            swpd_dX = min(dX, swpd_dX + done_dX + fee_X) if cross else dX
             swpd_dY += done_dY  # net for output token
             adjusted_dY += hmm_adj_Y
             total_fee_X += fee_X
@@ -958,6 +983,8 @@ class Pool:
 
         # now figure out how much done_dX and hmm_adj_X
         done_dX_amm = Pool.dX_from_L_drP(L=L, rP_old=start_rP, rP_new=end_rP)
+        # reserves may be short by float noise
+        done_dX_amm = -Pool.cap_dust(-done_dX_amm, self.X)
         if rP_oracle is None or self.C == 0.0 or rP_oracle <= start_rP:
             # 1st two cases cannot adjust so fall back to amm
             # * when trade will make pool price diverge more from oracle,
@@ -997,6 +1024,8 @@ class Pool:
         done_dX_amm *= 1 - Pool.ADJ_WHOLE_FILL
         done_dX *= 1 - Pool.ADJ_WHOLE_FILL
 
+        # adjustment is never against the pool, whatever the float noise
+        done_dX = max(done_dX, done_dX_amm)
         hmm_adj_X = done_dX - done_dX_amm
 
         if done_dX_amm > 0.0:
@@ -1074,10 +1103,12 @@ class Pool:
                 rP_oracle=rP_oracle,
             )
             assert self.X + done_dX - hmm_adj_X >= 0.0
-            assert dY - swpd_dY >= done_dY + fee_Y
+            dY_left = dY - swpd_dY
+            assert Pool.cap_dust(done_dY + fee_Y, dY_left) <= dY_left
 
             swpd_dX += done_dX  # net for output token
-            swpd_dY += done_dY + fee_Y  # gross for input token
+            # gross for input token
+            swpd_dY = min(dY, swpd_dY + done_dY + fee_Y) if cross else dY
             adjusted_dX += hmm_adj_X
             total_fee_Y += fee_Y
             curr_t = end_t
-- 
2.43.0


From bae0430b3f4ec98a76752690ffb71d4ca2568a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:20 +0000
Subject: [PATCH 38/40] fix: the float pools refuse out-of-range parameters

---
 programs/hmmcl-sandbox/src/cl_pool_float/mod.rs | 13 +++++++++++++
 programs/hmmcl-sandbox/src/cl_python/v3_pool.py |  5 +++++
 2 files changed, 18 insertions(+)

diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
index c2a6863..8e713f0 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
@@ -43,6 +43,19 @@ impl<'a> Pool<'a> {
         hmm_c: f64,
         fee_rate: f64,
     ) -> Pool<'a> {
+        if !(bootstrap_rp >= 0.0) {
+            panic!("cannot bootstrap with negative root-price");
+        }
+        if tick_spacing == 0 {
+            panic!("tick_spacing needs to be positive");
+        }
+        if !(0.0..=2.0).contains(&hmm_c) {
+            panic!("hmm_c needs to be between 0 and 2");
+        }
+        if !(0.0..1.0).contains(&fee_rate) {
+            panic!("fee_rate needs to be at least 0 and below 1");
+        }
+
         let tk = Self::rp_to_possible_tk(bootstrap_rp, tick_spacing, false);
         let rp = Self::tick_to_rp(tk);
 
diff --git a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
index d194b98..75b267e 100644
--- a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
+++ b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
@@ -81,6 +81,11 @@ class Pool:
         hmm_C: float = 0.0,
         fee_rate: float = 0.0,
     ):
+        assert bootstrap_rP >= 0.0
+        assert tick_spacing > 0
+        assert 0.0 <= hmm_C <= 2.0
+        assert 0.0 <= fee_rate < 1.0
+
         self.token_x = Token(x_name, x_decimals)
         self.token_y = Token(y_name, y_decimals)
         # only tick multiple of spacing are allowed
-- 
2.43.0


From eda5e11f28b266053628bee31d5995df10b1585b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:43 +0000
Subject: [PATCH 39/40] fix: an X swap may reach the lower end of a range at
 tick 0

---
 programs/hmmcl-sandbox/src/cl_pool/mod.rs       | 6 +++++-
 programs/hmmcl-sandbox/src/cl_pool_float/mod.rs | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/mod.rs b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
index 944edb4..1fb1254 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
@@ -233,6 +233,10 @@ impl<'a> Pool<'a> {
 
     fn get_left_limit_of_swap_within(&self, start_t: u128) -> Option<u128> {
         // get next available active tick from a starting point going left
+        // liquidity ends at the root-price of tick 0, there is no tick under it to cross into
+        if self.glbl_rp().lte(Self::tick_to_rp(0)).unwrap() {
+            return None;
+        }
         let tick = self.tick_to_possible_tick(start_t.min(self.glbl_tick()), false);
         for tk in self.tick_keys_cloned(true) {
             // descending
@@ -911,7 +915,7 @@ impl<'a> Pool<'a> {
                     // perform crossing of tick, if necessary
                     if cross == true {
                         assert!(end_t == gtk);
-                        if self.active_ticks.contains_key(&gtk) {
+                        if gtk > 0 && self.active_ticks.contains_key(&gtk) {
                             self.cross_tick(gtk, left_to_right);
                         }
                     }
diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
index 8e713f0..5024821 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
@@ -202,6 +202,10 @@ impl<'a> Pool<'a> {
 
     fn get_left_limit_of_swap_within(&self, start_t: u32) -> Option<u32> {
         // get next available active tick from a starting point going left
+        // liquidity ends at the root-price of tick 0, there is no tick under it to cross into
+        if self.glbl_rp() <= Self::tick_to_rp(0) {
+            return None;
+        }
         let tick = self.tick_to_possible_tick(start_t.min(self.glbl_tick()), false);
         for tk in self.tick_keys_cloned(true) {
             // descending
@@ -782,7 +786,7 @@ impl<'a> Pool<'a> {
                     // perform crossing of tick, if necessary
                     if cross == true {
                         assert!(end_t == gtk);
-                        if self.active_ticks.contains_key(&gtk) {
+                        if gtk > 0 && self.active_ticks.contains_key(&gtk) {
                             self.cross_tick(gtk, left_to_right);
                         }
                     }
-- 
2.43.0


From f479660caee925585db661d678ae55572009a33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:43 +0000
Subject: [PATCH 40/40] fix: pools cannot start at a root price below one

---
 programs/hmmcl-sandbox/src/cl_pool/mod.rs       | 3 +++
 programs/hmmcl-sandbox/src/cl_pool_float/mod.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/mod.rs b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
index 1fb1254..aab1df4 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
@@ -51,6 +51,9 @@ impl<'a> Pool<'a> {
         if bootstrap_rp.is_negative() {
             panic!("cannot bootstrap with negative root-price");
         }
+        if bootstrap_rp.to_compute_scale().lt(Self::tick_to_rp(0)).unwrap() {
+            panic!("cannot bootstrap with root-price below that of tick 0");
+        }
         if hmm_c.is_negative()
             || hmm_c
                 .to_compute_scale()
diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
index 5024821..50ebcf0 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
@@ -46,6 +46,9 @@ impl<'a> Pool<'a> {
         if !(bootstrap_rp >= 0.0) {
             panic!("cannot bootstrap with negative root-price");
         }
+        if bootstrap_rp < Self::tick_to_rp(0) {
+            panic!("cannot bootstrap with root-price below that of tick 0");
+        }
         if tick_spacing == 0 {
             panic!("tick_spacing needs to be positive");
         }
-- 
2.43.0

