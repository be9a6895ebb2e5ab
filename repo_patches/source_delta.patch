From ed0fa8a6fa1dc348851a07b920b46e7de2c09a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:37 +0000
Subject: [PATCH 01/25] fix: ldexp for underflow, subnormal, infinite and NaN
 inputs

---
 src/utils.rs | 42 ++++++++++++++++++++----------------------
 1 file changed, 20 insertions(+), 22 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index b8b90c7..f860cda 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -69,29 +69,27 @@ pub fn ldexp(x: f64, exp: i32) -> f64 {
         return x;
     }
 
-    // Convert the input to its IEEE 754 binary representation
-    let bits = x.to_bits();
-
-    // Extract the exponent from the binary representation
-    // Bits 52 to 62 represent the exponent in IEEE 754 format
-    let exponent = ((bits >> 52) & 0x7ff) as i32;
-
-    // Calculate the new exponent by adding the input exponent to the existing exponent
-    let new_exponent = exponent + exp;
-
-    // Check if the new exponent is within the valid range for IEEE 754 format
-    if !(0..=0x7ff).contains(&new_exponent) {
-        // If the exponent is out of range, return infinity or zero depending on the input sign
-        return if (bits >> 63) != 0 {
-            f64::NEG_INFINITY
-        } else {
-            f64::INFINITY
-        };
+    // Multiply by exact powers of two, in steps that can neither overflow nor underflow before
+    // the last one. Going down, 2^53 is kept back so that a subnormal result is rounded only once.
+    let two_pow = |e: i32| f64::from_bits(((0x3ff + e) as u64) << 52);
+    let mut y = x;
+    let mut n = exp;
+    if n > 1023 {
+        y *= two_pow(1023);
+        n -= 1023;
+        if n > 1023 {
+            y *= two_pow(1023);
+            n = (n - 1023).min(1023);
+        }
+    } else if n < -1022 {
+        y *= two_pow(-1022 + 53);
+        n += 1022 - 53;
+        if n < -1022 {
+            y *= two_pow(-1022 + 53);
+            n = (n + 1022 - 53).max(-1022);
+        }
     }
-
-    // Combine the new exponent with the mantissa and sign bits to create the result
-    let result_bits = (bits & 0x800fffffffffffff) | ((new_exponent as u64) << 52);
-    f64::from_bits(result_bits)
+    y * two_pow(n)
 }
 
 /// The sign function is a helper that returns
-- 
2.43.0


From 2bba6d90eea869af5d213f7699b8a9b63866d202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:37 +0000
Subject: [PATCH 02/25] fix: frexp for subnormal, infinite and NaN inputs

---
 src/utils.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index f860cda..a4cb88a 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -35,11 +35,18 @@ fn rising_factorial(z: f64, n: usize) -> f64 {
 
 /// Pure Rust implementation of frexp
 pub fn frexp(x: f64) -> (f64, i32) {
-    // If the input is zero, return (0.0, 0)
-    if x == 0.0 {
-        return (0.0, 0);
+    // Zero, infinities and NaN have no normalized mantissa; return them unchanged
+    if x == 0.0 || !x.is_finite() {
+        return (x, 0);
     }
 
+    // Scale subnormal inputs by 2^54 to obtain a normalized binary representation
+    let (x, bias) = if x.abs() < f64::MIN_POSITIVE {
+        (x * 18_014_398_509_481_984.0, 1023 + 54)
+    } else {
+        (x, 1023)
+    };
+
     // Convert the input to its IEEE 754 binary representation
     let bits = x.to_bits();
 
@@ -49,8 +56,8 @@ pub fn frexp(x: f64) -> (f64, i32) {
 
     // Extract the exponent from the binary representation
     // Bits 52 to 62 represent the exponent in IEEE 754 format
-    // Subtract 1023 to obtain the actual exponent value
-    let exponent = ((bits >> 52) & 0x7ff) as i32 - 1023;
+    // Subtract the bias to obtain the actual exponent value
+    let exponent = ((bits >> 52) & 0x7ff) as i32 - bias;
 
     // Extract the mantissa (significand) from the binary representation
     // Bits 0 to 51 represent the mantissa
-- 
2.43.0


From 536a6c30faa803e8beb703da22d746f65e59870b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:37 +0000
Subject: [PATCH 03/25] fix: erf and erfc return NaN for NaN instead of
 panicking

---
 src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index b3470d9..3d2b640 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -320,7 +320,7 @@ fn erfccheb(z: f64) -> f64 {
     let mut d = 0f64;
     let mut dd = 0f64;
 
-    assert!(z >= 0f64, "erfccheb requires nonnegative argument");
+    assert!(!(z < 0f64), "erfccheb requires nonnegative argument");
     let t = 2f64 / (2f64 + z);
     let ty = 4f64 * t - 2f64;
     for j in (1..NCOEF - 1).rev() {
-- 
2.43.0


From cb64186ddbfb624e072f37479230e0998d5ef056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:37 +0000
Subject: [PATCH 04/25] fix: inverfc no longer panics for the smallest
 subnormal

---
 src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index 3d2b640..d2cf82d 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -75,7 +75,7 @@ pub fn inverfc(p: f64) -> f64 {
     }
 
     let pp = if p < 1f64 { p } else { 2f64 - p };
-    let t = (-2f64 * (pp / 2f64).ln()).sqrt();
+    let t = (-2f64 * (pp.ln() - std::f64::consts::LN_2)).sqrt();
     let mut x = -std::f64::consts::FRAC_1_SQRT_2
         * ((2.30753 + t * 0.27061) / (1f64 + t * (0.99229 + t * 0.04481)) - t);
     for _j in 0..2 {
-- 
2.43.0


From bcaf1670c5e56c80829b8719951b28a9e30a61a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:37 +0000
Subject: [PATCH 05/25] fix: sum Rybicki's series in dawson before stepping its
 terms

---
 src/dawson.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dawson.rs b/src/dawson.rs
index 0aa913c..d7015de 100644
--- a/src/dawson.rs
+++ b/src/dawson.rs
@@ -40,11 +40,12 @@ pub fn dawson(x: f64) -> f64 {
 
         for i in 0..NMAX {
             let cval = f64::exp(-((2. * i as f64 + 1.) * h).powi(2));
+
+            sum += cval * (e1 / d1 + 1.0 / (d2 * e1));
+
             d1 += 2.;
             d2 -= 2.;
             e1 *= e2;
-
-            sum += cval * (e1 / d1 + 1.0 / (d2 * e1));
         }
 
         ans = (1. / PI.sqrt()) * sign(f64::exp(-xp * xp), x) * sum;
-- 
2.43.0


From 176de7ab4818f143d3818efd24e4869c43d70620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:37 +0000
Subject: [PATCH 06/25] fix: dawson for huge arguments

---
 src/dawson.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dawson.rs b/src/dawson.rs
index d7015de..c299446 100644
--- a/src/dawson.rs
+++ b/src/dawson.rs
@@ -28,6 +28,9 @@ pub fn dawson(x: f64) -> f64 {
     if x.abs() < 0.2 {
         x2 = x * x;
         ans = x * (1.0 - a1 * x2 * (1.0 - a2 * x2 * (1.0 - a3 * x2)));
+    } else if x.abs() > 1e8 {
+        // The next term of the asymptotic series is below the rounding error.
+        ans = 0.5 / x;
     } else {
         xx = x.abs();
         n0 = 2 * (0.5 * xx / h + 0.5) as u64; // Simply truncates the decimal places, as in NR.
-- 
2.43.0


From cbcbe17c872ddb2117bc197031a82196e3b310f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:37 +0000
Subject: [PATCH 07/25] fix: cancellation in faddeeva for large arguments close
 to an axis

---
 src/faddeeva.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/faddeeva.rs b/src/faddeeva.rs
index d304b97..7c69383 100644
--- a/src/faddeeva.rs
+++ b/src/faddeeva.rs
@@ -48,7 +48,8 @@ pub fn faddeeva(re: f64, im: f64) -> (f64, f64) {
     /* but either of the components may be off by orders of magnitude.  */
     /* **************************************************************** */
 
-    if yabs < 1e-8 * xabs {
+    // (Off the axis, the expansion for |z| -> infinity is used where exp(-x^2) no longer matters.)
+    if yabs < 1e-8 * xabs && (yabs == 0. || xabs <= 27.) {
         let wi = im_w_of_x(x);
         let e2 = if xabs > 27. {
             0.
@@ -67,7 +68,7 @@ pub fn faddeeva(re: f64, im: f64) -> (f64, f64) {
     /* but either of the components may be off by orders of magnitude.  */
     /* **************************************************************** */
 
-    if xabs < 1e-8 * yabs {
+    if xabs < 1e-8 * yabs && (xabs == 0. || z_sqared < 49.) {
         let wr = erfcx(y);
         if xabs == 0. {
             return (wr, 0.);
-- 
2.43.0


From 79d8503815efa3fa54e96ed5ed1b389fadc45a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:37 +0000
Subject: [PATCH 08/25] fix: overflow within one step of Jn's downward
 recurrence for tiny arguments

---
 src/bessel.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/bessel.rs b/src/bessel.rs
index 4d91682..d581de3 100644
--- a/src/bessel.rs
+++ b/src/bessel.rs
@@ -29,7 +29,7 @@ use std::collections::HashMap;
 pub fn Jn(n: u32, x: f64) -> f64 {
     let n_f64 = n as f64;
     let acc = 160f64;
-    let iexp = f64::MAX_EXP / 2;
+    let iexp = f64::MAX_EXP / 4;
 
     if n == 0 {
         j0(x)
@@ -63,10 +63,11 @@ pub fn Jn(n: u32, x: f64) -> f64 {
                 bj = bjm;
                 let (_, k) = frexp(bj);
                 if k > iexp {
-                    bj = ldexp(bj, -iexp);
-                    bjp = ldexp(bjp, -iexp);
-                    ans = ldexp(ans, -iexp);
-                    sum = ldexp(sum, -iexp);
+                    let scale = -(k / iexp * iexp);
+                    bj = ldexp(bj, scale);
+                    bjp = ldexp(bjp, scale);
+                    ans = ldexp(ans, scale);
+                    sum = ldexp(sum, scale);
                 }
                 if jsum {
                     sum += bj;
-- 
2.43.0


From 32b4b3563b80b471f4fa72946f5d5ecdd9c0f197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:37 +0000
Subject: [PATCH 09/25] fix: overflow within one step of In's downward
 recurrence for tiny arguments

---
 src/bessel.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/bessel.rs b/src/bessel.rs
index d581de3..8e05a80 100644
--- a/src/bessel.rs
+++ b/src/bessel.rs
@@ -142,7 +142,7 @@ pub fn Yn(n: u32, x: f64) -> f64 {
 #[allow(non_snake_case)]
 pub fn In(n: u32, x: f64) -> f64 {
     let acc = 200f64;
-    let iexp = f64::MAX_EXP / 2;
+    let iexp = f64::MAX_EXP / 4;
     let n_f64 = n as f64;
     if n == 0 {
         i0(x)
@@ -161,9 +161,10 @@ pub fn In(n: u32, x: f64) -> f64 {
             bi = bim;
             let (_, k) = frexp(bi);
             if k > iexp {
-                bi = ldexp(bi, -iexp);
-                bip = ldexp(bip, -iexp);
-                ans = ldexp(ans, -iexp);
+                let scale = -(k / iexp * iexp);
+                bi = ldexp(bi, scale);
+                bip = ldexp(bip, scale);
+                ans = ldexp(ans, scale);
             }
             if j == n {
                 ans = bip;
-- 
2.43.0


From b1c92b5e915f74ef42c867b7ccb1e1739b3d56cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:37 +0000
Subject: [PATCH 10/25] fix: In of order 1 for x <= -15

---
 src/bessel.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bessel.rs b/src/bessel.rs
index 8e05a80..83bdcc9 100644
--- a/src/bessel.rs
+++ b/src/bessel.rs
@@ -1009,7 +1009,7 @@ fn i1(x: f64) -> f64 {
         x * poly(y, &I1P, 13) / poly(225f64 - y, &I1Q, 4)
     } else {
         let z = 1f64 - 15f64 / ax;
-        let ans = x.exp() * poly(z, &I1PP, 4) / (ax.sqrt() * poly(z, &I1QQ, 5));
+        let ans = ax.exp() * poly(z, &I1PP, 4) / (ax.sqrt() * poly(z, &I1QQ, 5));
         if x < 0f64 {
             -ans
         } else {
-- 
2.43.0


From 579d500c3e84c9877cc739ef284c9919489c4946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:37 +0000
Subject: [PATCH 11/25] fix: start In's downward recurrence high enough for
 large arguments

---
 src/bessel.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bessel.rs b/src/bessel.rs
index 83bdcc9..5e4734f 100644
--- a/src/bessel.rs
+++ b/src/bessel.rs
@@ -155,7 +155,11 @@ pub fn In(n: u32, x: f64) -> f64 {
         let mut bip = 0f64;
         let mut ans = 0f64;
         let mut bi = 1f64;
-        for j in (1..2 * (n + (acc * n_f64).sqrt() as u32)).rev() {
+        // The starting order must also exceed the orders at which I_j(x) is still comparable to
+        // I_n(x), about sqrt(n^2 + 40 x). (I_0 overflows for x > 714.)
+        let m = (2 * (n + (acc * n_f64).sqrt() as u32))
+            .max((n_f64 * n_f64 + acc * x.abs().min(714f64)).sqrt() as u32);
+        for j in (1..m).rev() {
             let bim = j as f64 * tox * bi + bip;
             bip = bi;
             bi = bim;
-- 
2.43.0


From 868db27b57c88e22eecf5f91cccc142b229cf3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:37 +0000
Subject: [PATCH 12/25] fix: Yn returns -inf instead of NaN on overflow

---
 src/bessel.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bessel.rs b/src/bessel.rs
index 5e4734f..c864ee7 100644
--- a/src/bessel.rs
+++ b/src/bessel.rs
@@ -118,6 +118,10 @@ pub fn Yn(n: u32, x: f64) -> f64 {
             let byp = j as f64 * tox * by - bym;
             bym = by;
             by = byp;
+            if by.is_infinite() {
+                // Higher orders overflow as well; inf - inf would turn into NaN.
+                break;
+            }
         }
         by
     }
-- 
2.43.0


From 762a21a8e4eb88073cae4f91e8ecf62fd4867170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:37 +0000
Subject: [PATCH 13/25] fix: cancellation in ln_gamma for small arguments

---
 src/gamma.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gamma.rs b/src/gamma.rs
index 62a4dc9..c556e13 100644
--- a/src/gamma.rs
+++ b/src/gamma.rs
@@ -31,14 +31,14 @@ const N: usize = 7;
 ///
 /// The natural logarithm of the gamma function at `z`
 pub fn ln_gamma(z: f64) -> f64 {
-    let z = z - 1f64;
-    let base = z + G + 0.5;
+    // Note that z is not shifted by one, as z - 1 would lose the digits of a small z.
+    let base = z + (G - 0.5);
     let mut s = 0f64;
     for (i, &coeff) in LG5N7.iter().enumerate().skip(1) {
-        s += coeff / (z + i as f64);
+        s += coeff / (z + (i - 1) as f64);
     }
     s += LG5N7[0];
-    (2f64 * PI).sqrt().ln() + s.ln() - base + base.ln() * (z + 0.5)
+    (2f64 * PI).sqrt().ln() + s.ln() - base + base.ln() * (z - 0.5)
 }
 
 /// Calculates the gamma function.
-- 
2.43.0


From 4a8241d5a5611dc312a7b01e461d3aa4e7263439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:37 +0000
Subject: [PATCH 14/25] fix: ln_gamma of infinity

---
 src/gamma.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gamma.rs b/src/gamma.rs
index c556e13..14b1f81 100644
--- a/src/gamma.rs
+++ b/src/gamma.rs
@@ -31,6 +31,9 @@ const N: usize = 7;
 ///
 /// The natural logarithm of the gamma function at `z`
 pub fn ln_gamma(z: f64) -> f64 {
+    if z == f64::INFINITY {
+        return f64::INFINITY;
+    }
     // Note that z is not shifted by one, as z - 1 would lose the digits of a small z.
     let base = z + (G - 0.5);
     let mut s = 0f64;
-- 
2.43.0


From b2625c1c5a1197647a80f8bb14bb69b4455224e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:37 +0000
Subject: [PATCH 15/25] fix: gammp and gammq are no longer NaN below the peak
 for a >= 100

---
 src/gamma.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/gamma.rs b/src/gamma.rs
index 14b1f81..3e3e0e8 100644
--- a/src/gamma.rs
+++ b/src/gamma.rs
@@ -374,7 +374,8 @@ fn gammpapprox(a: f64, x: f64, psig: IncGamma) -> f64 {
     let lna1 = a1.ln();
     let sqrta1 = a1.sqrt();
     let gln = ln_gamma(a);
-    let xu = if x > a1 {
+    let upper = x > a1; // Integrate the upper tail or the lower one?
+    let xu = if upper {
         (a1 + 11.5 * sqrta1).max(x + 6f64 * sqrta1)
     } else {
         0f64.max((a1 - 7.5 * sqrta1).min(x - 5f64 * sqrta1))
@@ -402,7 +403,7 @@ fn gammpapprox(a: f64, x: f64, psig: IncGamma) -> f64 {
 
     // Compute final answer with overflow/underflow protection
     let log_scale = a1 * (lna1 - 1f64) - gln;
-    let log_ans = log_max + sum.ln() + (xu - x).ln() + log_scale;
+    let log_ans = log_max + sum.ln() + (xu - x).abs().ln() + log_scale;
 
     let ans = if log_ans > 700.0 {
         f64::INFINITY
@@ -413,13 +414,11 @@ fn gammpapprox(a: f64, x: f64, psig: IncGamma) -> f64 {
     };
 
     // Clamp results to [0, 1] and handle the P vs Q case
-    match psig {
-        IncGamma::P => {
-            let result = 1f64 - ans;
-            result.clamp(0.0, 1.0)
-        }
-        IncGamma::Q => ans.clamp(0.0, 1.0),
-    }
+    let result = match (psig, upper) {
+        (IncGamma::P, true) | (IncGamma::Q, false) => 1f64 - ans,
+        (IncGamma::P, false) | (IncGamma::Q, true) => ans,
+    };
+    result.clamp(0.0, 1.0)
 }
 
 /// Calculates the inverse of the regularized lower incomplete gamma function.
-- 
2.43.0


From 3c0036226951a8b8f2bf6568bb147ea7f8dcd2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:37 +0000
Subject: [PATCH 16/25] fix: gammp and gammq for x much smaller than a small a

---
 src/gamma.rs | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/src/gamma.rs b/src/gamma.rs
index 3e3e0e8..7e4c1e9 100644
--- a/src/gamma.rs
+++ b/src/gamma.rs
@@ -197,11 +197,6 @@ pub fn gammp(a: f64, x: f64) -> f64 {
         return 0f64;
     }
 
-    // For very small x relative to a, use series (always more accurate)
-    if x < a * EPS {
-        return 0f64;
-    }
-
     // For very large x relative to a, result approaches 1
     if x > a + 20.0 * (a.sqrt() + 1.0) {
         return 1f64;
@@ -254,11 +249,6 @@ pub fn gammq(a: f64, x: f64) -> f64 {
         return 1f64;
     }
 
-    // For very small x relative to a, result approaches 1
-    if x < a * EPS {
-        return 1f64;
-    }
-
     // For very large x relative to a, result approaches 0
     if x > a + 20.0 * (a.sqrt() + 1.0) {
         return 0f64;
-- 
2.43.0


From a30771fd7c021c609aa9abc355a0af1224731cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:37 +0000
Subject: [PATCH 17/25] fix: branch condition of betai's continued fraction

---
 src/beta.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/beta.rs b/src/beta.rs
index aec936a..a1bdb6c 100644
--- a/src/beta.rs
+++ b/src/beta.rs
@@ -70,7 +70,7 @@ pub fn betai(a: f64, b: f64, x: f64) -> f64 {
         return betaiapprox(a, b, x);
     }
     let bt = (ln_gamma(a + b) - ln_gamma(a) - ln_gamma(b) + a * x.ln() + b * (1f64 - x).ln()).exp();
-    if x < (a + 1f64) / (a + b * 2f64) {
+    if x < (a + 1f64) / (a + b + 2f64) {
         bt * betacf(a, b, x) / a
     } else {
         1f64 - bt * betacf(b, a, 1f64 - x) / b
-- 
2.43.0


From 911d03efb7d7773d088b7ee2477064c90ed95623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:37 +0000
Subject: [PATCH 18/25] fix: quadrature of betai for large a and b

---
 src/beta.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/beta.rs b/src/beta.rs
index a1bdb6c..0299d05 100644
--- a/src/beta.rs
+++ b/src/beta.rs
@@ -144,7 +144,7 @@ fn betaiapprox(a: f64, b: f64, x: f64) -> f64 {
     let mut sum = 0f64;
     for j in 0..18 {
         t = x + (xu - x) * Y[j];
-        sum += W[j] * (a1 * (t.ln() - lnmu) + b1 * (1f64 - t).ln() - lnmuc).exp();
+        sum += W[j] * (a1 * (t.ln() - lnmu) + b1 * ((1f64 - t).ln() - lnmuc)).exp();
     }
     let ans = sum
         * (xu - x)
-- 
2.43.0


From 1371c7405a5a79f4757cad97a29c1985b303e645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:37 +0000
Subject: [PATCH 19/25] fix: betai for large a and b where the upper tail
 underflows

---
 src/beta.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/beta.rs b/src/beta.rs
index 0299d05..9ea2f8e 100644
--- a/src/beta.rs
+++ b/src/beta.rs
@@ -149,7 +149,8 @@ fn betaiapprox(a: f64, b: f64, x: f64) -> f64 {
     let ans = sum
         * (xu - x)
         * (a1 * lnmu - ln_gamma(a) + b1 * lnmuc - ln_gamma(b) + ln_gamma(a + b)).exp();
-    if ans > 0f64 {
+    // (Not the sign of ans, which may have underflowed to zero.)
+    if x > mu {
         1f64 - ans
     } else {
         -ans
-- 
2.43.0


From a2515899186322cc11c4cb28336dcc5f5ee19082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:37 +0000
Subject: [PATCH 20/25] fix: invgammp stopped iterating too early for tiny
 results

---
 src/gamma.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gamma.rs b/src/gamma.rs
index 7e4c1e9..2ad368b 100644
--- a/src/gamma.rs
+++ b/src/gamma.rs
@@ -481,7 +481,7 @@ pub fn invgammp(p: f64, a: f64) -> f64 {
         if x <= 0f64 {
             x = 0.5 * (x + t);
         }
-        if t.abs() < (x * EPS).max(EPS) {
+        if t.abs() < x * EPS {
             break;
         }
     }
-- 
2.43.0


From e53a93eb72343ca557a75e6596ee035ae3b7fc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:37 +0000
Subject: [PATCH 21/25] fix: keep gammp, gammq and betai within [0, 1]

---
 src/beta.rs  | 12 +++++-------
 src/gamma.rs |  6 +++---
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/beta.rs b/src/beta.rs
index 9ea2f8e..4a0e42e 100644
--- a/src/beta.rs
+++ b/src/beta.rs
@@ -70,11 +70,12 @@ pub fn betai(a: f64, b: f64, x: f64) -> f64 {
         return betaiapprox(a, b, x);
     }
     let bt = (ln_gamma(a + b) - ln_gamma(a) - ln_gamma(b) + a * x.ln() + b * (1f64 - x).ln()).exp();
-    if x < (a + 1f64) / (a + b + 2f64) {
+    let result = if x < (a + 1f64) / (a + b + 2f64) {
         bt * betacf(a, b, x) / a
     } else {
         1f64 - bt * betacf(b, a, 1f64 - x) / b
-    }
+    };
+    result.clamp(0.0, 1.0)
 }
 
 /// Continued fraction beta
@@ -150,11 +151,8 @@ fn betaiapprox(a: f64, b: f64, x: f64) -> f64 {
         * (xu - x)
         * (a1 * lnmu - ln_gamma(a) + b1 * lnmuc - ln_gamma(b) + ln_gamma(a + b)).exp();
     // (Not the sign of ans, which may have underflowed to zero.)
-    if x > mu {
-        1f64 - ans
-    } else {
-        -ans
-    }
+    let result = if x > mu { 1f64 - ans } else { -ans };
+    result.clamp(0.0, 1.0)
 }
 
 // =============================================================================
diff --git a/src/gamma.rs b/src/gamma.rs
index 2ad368b..9af043c 100644
--- a/src/gamma.rs
+++ b/src/gamma.rs
@@ -205,14 +205,14 @@ pub fn gammp(a: f64, x: f64) -> f64 {
     if (a as usize) >= ASWITCH {
         // For very small x relative to a, use series instead of quadrature
         if x < 0.2 * a {
-            gser(a, x)
+            gser(a, x).clamp(0.0, 1.0)
         } else {
             // Quadrature for large a
             gammpapprox(a, x, IncGamma::P)
         }
     } else if x < a + 1f64 {
         // Series representation - more accurate for x < a+1
-        gser(a, x)
+        gser(a, x).clamp(0.0, 1.0)
     } else {
         // Continued fraction representation
         // Use complementary function to avoid catastrophic cancellation
@@ -270,7 +270,7 @@ pub fn gammq(a: f64, x: f64) -> f64 {
         result.clamp(0.0, 1.0)
     } else {
         // Continued fraction representation - more accurate for x >= a+1
-        gcf(a, x)
+        gcf(a, x).clamp(0.0, 1.0)
     }
 }
 
-- 
2.43.0


From cdc0336a09b0f6026beb82a6c34d6aba000e78d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:01 +0000
Subject: [PATCH 22/25] fix: besseljy returned NaN where Y vanishes (0 times
 q/0)

---
 src/bessel.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bessel.rs b/src/bessel.rs
index c864ee7..c1202ba 100644
--- a/src/bessel.rs
+++ b/src/bessel.rs
@@ -421,7 +421,7 @@ pub fn besseljy(nu: f64, x: f64) -> (f64, f64, f64, f64) {
         let rjmu_temp = (w / ((p - f) * gam + q)).sqrt();
         rjmu = if rjl < 0f64 { -rjmu_temp } else { rjmu_temp };
         rymu = gam * rjmu;
-        rymup = rymu * (p + q / gam);
+        rymup = rjmu * (p * gam + q);
         ry1 = xmu * xi * rymu - rymup;
     }
     let fact = rjmu / rjl;
-- 
2.43.0


From a1cd753703b483e4975923af321b80bde775621a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:27 +0000
Subject: [PATCH 23/25] fix: besseljy was wrong where the recurrence for J hits
 0 exactly (unscaled replacement)

---
 src/bessel.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bessel.rs b/src/bessel.rs
index c1202ba..02d3bda 100644
--- a/src/bessel.rs
+++ b/src/bessel.rs
@@ -311,7 +311,8 @@ pub fn besseljy(nu: f64, x: f64) -> (f64, f64, f64, f64) {
         rjl = rjtemp;
     }
     if rjl == 0f64 {
-        rjl = EPS;
+        // (rjl is scaled by FPMIN)
+        rjl = EPS * FPMIN;
     }
     let f = rjpl / rjl;
     if x < XMIN {
-- 
2.43.0


From fdd22298b97cc7b2ca15792c9faf153bb2329787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:08 +0000
Subject: [PATCH 24/25] fix: invgammp panicked for small p and large a, where
 the density at the first guess underflows

---
 src/gamma.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/gamma.rs b/src/gamma.rs
index 9af043c..ed0f7b0 100644
--- a/src/gamma.rs
+++ b/src/gamma.rs
@@ -453,7 +453,9 @@ pub fn invgammp(p: f64, a: f64) -> f64 {
         if p < 0.5 {
             x = -x;
         }
-        1e-3_f64.max(a * (1f64 - 1f64 / (9f64 * a) - x / (3f64 * a.sqrt())).powi(3))
+        x = a * (1f64 - 1f64 / (9f64 * a) - x / (3f64 * a.sqrt())).powi(3);
+        // P(a, x) <= x^a / Gamma(a + 1)
+        x.max(((p.ln() + gln + a.ln()) / a).exp()).max(1e-3)
     } else {
         t = 1f64 - a * (0.253 + a * 0.12);
         if p < t {
@@ -475,6 +477,10 @@ pub fn invgammp(p: f64, a: f64) -> f64 {
             (-x + a1 * x.ln() - gln).exp()
         };
         let u = err / t;
+        if !u.is_finite() {
+            // the density underflows: no step can be computed
+            break;
+        }
         // Halley's method
         t = u / (1f64 - 0.5 * 1f64.min(u * (a1 / x - 1f64)));
         x -= t;
-- 
2.43.0


From 268ba5eb4902d7b2e61241418f4ff8f3b2e96a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:24 +0000
Subject: [PATCH 25/25] fix: invbetai panicked where the density at an iterate
 underflows

---
 src/beta.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/beta.rs b/src/beta.rs
index 4a0e42e..3832d63 100644
--- a/src/beta.rs
+++ b/src/beta.rs
@@ -216,6 +216,10 @@ pub fn invbetai(p: f64, a: f64, b: f64) -> f64 {
         let err = betai(a, b, x) - p;
         t = (a1 * x.ln() + b1 * (1f64 - x).ln() + afac).exp();
         u = err / t;
+        if !u.is_finite() {
+            // the density underflows: no step can be computed
+            break;
+        }
         t = u / (1f64 - 0.5 * 1f64.min(u * (a1 / x - b1 / (1f64 - x))));
         x -= t;
         if x <= 0f64 {
-- 
2.43.0

