From 4637fd23a6a3761e02d3df36ade0f7051995efbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:25 +0000
Subject: [PATCH 01/20] fix: frexp and ldexp on underflow, subnormal and
 non-finite values

ldexp returned an infinity on underflow (so Jn(100, 0.01) was infinite), a NaN
when the result overflowed by one binade, and overflowed i32 for huge exponents;
frexp mishandled subnormals, infinities and NaN.
---
 src/utils.rs | 57 ++++++++++++++++++++++++++--------------------------
 1 file changed, 28 insertions(+), 29 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index b8b90c7..dbac759 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -35,9 +35,16 @@ fn rising_factorial(z: f64, n: usize) -> f64 {
 
 /// Pure Rust implementation of frexp
 pub fn frexp(x: f64) -> (f64, i32) {
-    // If the input is zero, return (0.0, 0)
-    if x == 0.0 {
-        return (0.0, 0);
+    // Zeros, infinities and NaN have no binary exponent: return them unchanged
+    if x == 0.0 || !x.is_finite() {
+        return (x, 0);
+    }
+
+    // Subnormal numbers have no implicit leading bit: scale them into the normal range first
+    if x.abs() < f64::MIN_POSITIVE {
+        const TWO_POW_54: f64 = 18_014_398_509_481_984.0;
+        let (mantissa, exponent) = frexp(x * TWO_POW_54);
+        return (mantissa, exponent - 54);
     }
 
     // Convert the input to its IEEE 754 binary representation
@@ -64,34 +71,26 @@ pub fn frexp(x: f64) -> (f64, i32) {
 
 /// Pure Rust implementation of ldexp
 pub fn ldexp(x: f64, exp: i32) -> f64 {
-    // If the input is zero or the exponent is zero, return the input unchanged
-    if x == 0.0 || exp == 0 {
-        return x;
-    }
-
-    // Convert the input to its IEEE 754 binary representation
-    let bits = x.to_bits();
-
-    // Extract the exponent from the binary representation
-    // Bits 52 to 62 represent the exponent in IEEE 754 format
-    let exponent = ((bits >> 52) & 0x7ff) as i32;
-
-    // Calculate the new exponent by adding the input exponent to the existing exponent
-    let new_exponent = exponent + exp;
-
-    // Check if the new exponent is within the valid range for IEEE 754 format
-    if !(0..=0x7ff).contains(&new_exponent) {
-        // If the exponent is out of range, return infinity or zero depending on the input sign
-        return if (bits >> 63) != 0 {
-            f64::NEG_INFINITY
-        } else {
-            f64::INFINITY
-        };
+    // Largest and (with 53 bits of headroom, to avoid rounding twice) smallest power of two used as a factor
+    const TWO_POW_1023: f64 = f64::from_bits(2046 << 52);
+    const TWO_POW_M969: f64 = f64::from_bits(54 << 52);
+
+    // Bring the exponent into the range of normal numbers by scaling in at most two steps.
+    // The result overflows to infinity and underflows gradually to zero, keeping its sign.
+    let (mut y, mut n) = (x, exp);
+    for _ in 0..2 {
+        if n > 1023 {
+            y *= TWO_POW_1023;
+            n -= 1023;
+        } else if n < -1022 {
+            y *= TWO_POW_M969;
+            n += 969;
+        }
     }
+    let n = n.clamp(-1022, 1023);
 
-    // Combine the new exponent with the mantissa and sign bits to create the result
-    let result_bits = (bits & 0x800fffffffffffff) | ((new_exponent as u64) << 52);
-    f64::from_bits(result_bits)
+    // Multiply by 2^n
+    y * f64::from_bits(((n + 1023) as u64) << 52)
 }
 
 /// The sign function is a helper that returns
-- 
2.43.0


From 715fff1cf86bacdef50e4f5405433e76c1787acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:25 +0000
Subject: [PATCH 02/20] fix: In of order 1 for arguments below -15

The asymptotic branch used exp(x) instead of exp(|x|).
---
 src/bessel.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bessel.rs b/src/bessel.rs
index 4d91682..2bb3e0d 100644
--- a/src/bessel.rs
+++ b/src/bessel.rs
@@ -1007,7 +1007,7 @@ fn i1(x: f64) -> f64 {
         x * poly(y, &I1P, 13) / poly(225f64 - y, &I1Q, 4)
     } else {
         let z = 1f64 - 15f64 / ax;
-        let ans = x.exp() * poly(z, &I1PP, 4) / (ax.sqrt() * poly(z, &I1QQ, 5));
+        let ans = ax.exp() * poly(z, &I1PP, 4) / (ax.sqrt() * poly(z, &I1QQ, 5));
         if x < 0f64 {
             -ans
         } else {
-- 
2.43.0


From 722754a200b0cceffb1afcf286ea0ec41e6a54a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:25 +0000
Subject: [PATCH 03/20] fix: gammp and gammq for a >= 100 and x <= a - 1

The quadrature then integrates the lower tail, downwards: the logarithm of the
negative interval length made the result NaN.
---
 src/gamma.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/gamma.rs b/src/gamma.rs
index 62a4dc9..1ae6973 100644
--- a/src/gamma.rs
+++ b/src/gamma.rs
@@ -399,7 +399,7 @@ fn gammpapprox(a: f64, x: f64, psig: IncGamma) -> f64 {
 
     // Compute final answer with overflow/underflow protection
     let log_scale = a1 * (lna1 - 1f64) - gln;
-    let log_ans = log_max + sum.ln() + (xu - x).ln() + log_scale;
+    let log_ans = log_max + sum.ln() + (xu - x).abs().ln() + log_scale;
 
     let ans = if log_ans > 700.0 {
         f64::INFINITY
@@ -409,14 +409,14 @@ fn gammpapprox(a: f64, x: f64, psig: IncGamma) -> f64 {
         log_ans.exp()
     };
 
-    // Clamp results to [0, 1] and handle the P vs Q case
-    match psig {
-        IncGamma::P => {
-            let result = 1f64 - ans;
-            result.clamp(0.0, 1.0)
-        }
-        IncGamma::Q => ans.clamp(0.0, 1.0),
-    }
+    // The quadrature gives the upper tail Q if x > a - 1 and the lower tail P otherwise.
+    let ans = match (psig, x > a1) {
+        (IncGamma::Q, true) | (IncGamma::P, false) => ans,
+        (IncGamma::P, true) | (IncGamma::Q, false) => 1f64 - ans,
+    };
+
+    // Clamp results to [0, 1]
+    ans.clamp(0.0, 1.0)
 }
 
 /// Calculates the inverse of the regularized lower incomplete gamma function.
-- 
2.43.0


From fa23d830e8d3d0f1bb3378fb9949084f4f694812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:25 +0000
Subject: [PATCH 04/20] fix: gammp and gammq for small a and tiny x

The shortcut for x < a * EPS assumed that x^a underflows, which only holds for
large a: P(0.01, 1e-18) is 0.66, not 0.
---
 src/gamma.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gamma.rs b/src/gamma.rs
index 1ae6973..f4eb683 100644
--- a/src/gamma.rs
+++ b/src/gamma.rs
@@ -195,7 +195,7 @@ pub fn gammp(a: f64, x: f64) -> f64 {
     }
 
     // For very small x relative to a, use series (always more accurate)
-    if x < a * EPS {
+    if (a as usize) >= ASWITCH && x < a * EPS {
         return 0f64;
     }
 
@@ -252,7 +252,7 @@ pub fn gammq(a: f64, x: f64) -> f64 {
     }
 
     // For very small x relative to a, result approaches 1
-    if x < a * EPS {
+    if (a as usize) >= ASWITCH && x < a * EPS {
         return 1f64;
     }
 
-- 
2.43.0


From 934d1ea7c96b6c6ed0d3a4ddf7defe0cc7e04a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:25 +0000
Subject: [PATCH 05/20] fix: betai for a and b above 3000

Misplaced parenthesis in the quadrature weight.
---
 src/beta.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/beta.rs b/src/beta.rs
index aec936a..1d33c6d 100644
--- a/src/beta.rs
+++ b/src/beta.rs
@@ -144,7 +144,7 @@ fn betaiapprox(a: f64, b: f64, x: f64) -> f64 {
     let mut sum = 0f64;
     for j in 0..18 {
         t = x + (xu - x) * Y[j];
-        sum += W[j] * (a1 * (t.ln() - lnmu) + b1 * (1f64 - t).ln() - lnmuc).exp();
+        sum += W[j] * (a1 * (t.ln() - lnmu) + b1 * ((1f64 - t).ln() - lnmuc)).exp();
     }
     let ans = sum
         * (xu - x)
-- 
2.43.0


From caa6a0bf83aa755542f2b34bfc95bc2ee79d1c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:25 +0000
Subject: [PATCH 06/20] fix: erf, erfc, inverf and inverfc of NaN are NaN
 instead of a panic

---
 src/error.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index b3470d9..e82ebc0 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -320,7 +320,10 @@ fn erfccheb(z: f64) -> f64 {
     let mut d = 0f64;
     let mut dd = 0f64;
 
-    assert!(z >= 0f64, "erfccheb requires nonnegative argument");
+    assert!(
+        z >= 0f64 || z.is_nan(),
+        "erfccheb requires nonnegative argument"
+    );
     let t = 2f64 / (2f64 + z);
     let ty = 4f64 * t - 2f64;
     for j in (1..NCOEF - 1).rev() {
-- 
2.43.0


From f462fe162a86fd04d41747a69ecc20aa93664355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:25 +0000
Subject: [PATCH 07/20] fix: dawson of huge arguments

The sample index overflowed u64 for |x| above 7e18, and between 1e15 and that
the offset from the nearest sample was rounding noise.
---
 src/dawson.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dawson.rs b/src/dawson.rs
index 0aa913c..7e5d2a7 100644
--- a/src/dawson.rs
+++ b/src/dawson.rs
@@ -28,6 +28,9 @@ pub fn dawson(x: f64) -> f64 {
     if x.abs() < 0.2 {
         x2 = x * x;
         ans = x * (1.0 - a1 * x2 * (1.0 - a2 * x2 * (1.0 - a3 * x2)));
+    } else if x.abs() > 1e8 {
+        // Leading term of the asymptotic expansion. The sampling below loses the fraction of such values.
+        ans = 0.5 / x;
     } else {
         xx = x.abs();
         n0 = 2 * (0.5 * xx / h + 0.5) as u64; // Simply truncates the decimal places, as in NR.
-- 
2.43.0


From c5fc74a1d467205724ece7acca95612834c24f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:25 +0000
Subject: [PATCH 08/20] fix: starting index of the downward recurrences of Jn
 and In overflowed u32

---
 src/bessel.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bessel.rs b/src/bessel.rs
index 2bb3e0d..c677658 100644
--- a/src/bessel.rs
+++ b/src/bessel.rs
@@ -52,7 +52,7 @@ pub fn Jn(n: u32, x: f64) -> f64 {
             ans = bj;
         } else {
             let tox = 2.0 / ax;
-            let m = 2 * ((n + (acc * n_f64).sqrt() as u32) / 2);
+            let m = 2 * ((n as u64 + (acc * n_f64).sqrt() as u64) / 2);
             let mut jsum = false;
             let mut bjp = 0f64;
             let mut sum = 0f64;
@@ -72,7 +72,7 @@ pub fn Jn(n: u32, x: f64) -> f64 {
                     sum += bj;
                 }
                 jsum = !jsum;
-                if j == n {
+                if j == n as u64 {
                     ans = bjp;
                 }
             }
@@ -154,7 +154,7 @@ pub fn In(n: u32, x: f64) -> f64 {
         let mut bip = 0f64;
         let mut ans = 0f64;
         let mut bi = 1f64;
-        for j in (1..2 * (n + (acc * n_f64).sqrt() as u32)).rev() {
+        for j in (1..2 * (n as u64 + (acc * n_f64).sqrt() as u64)).rev() {
             let bim = j as f64 * tox * bi + bip;
             bip = bi;
             bi = bim;
@@ -164,7 +164,7 @@ pub fn In(n: u32, x: f64) -> f64 {
                 bip = ldexp(bip, -iexp);
                 ans = ldexp(ans, -iexp);
             }
-            if j == n {
+            if j == n as u64 {
                 ans = bip;
             }
         }
-- 
2.43.0


From 81575f16de9f8d64de17cb98fb162fe109df3b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:09 +0000
Subject: [PATCH 09/20] fix: ln_gamma lost the digits of small arguments
 (infinite below 1e-16)

---
 src/gamma.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gamma.rs b/src/gamma.rs
index f4eb683..8db0efd 100644
--- a/src/gamma.rs
+++ b/src/gamma.rs
@@ -31,14 +31,14 @@ const N: usize = 7;
 ///
 /// The natural logarithm of the gamma function at `z`
 pub fn ln_gamma(z: f64) -> f64 {
-    let z = z - 1f64;
-    let base = z + G + 0.5;
+    let base = z + G - 0.5;
     let mut s = 0f64;
-    for (i, &coeff) in LG5N7.iter().enumerate().skip(1) {
+    for (i, &coeff) in LG5N7.iter().skip(1).enumerate() {
+        // Not `(z - 1) + (i + 1)`, which loses the digits of a small z
         s += coeff / (z + i as f64);
     }
     s += LG5N7[0];
-    (2f64 * PI).sqrt().ln() + s.ln() - base + base.ln() * (z + 0.5)
+    (2f64 * PI).sqrt().ln() + s.ln() - base + base.ln() * (z - 0.5)
 }
 
 /// Calculates the gamma function.
-- 
2.43.0


From 74600f7579fffc692d4e0fbc0f3babedd363610d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:54 +0000
Subject: [PATCH 10/20] fix: dawson stepped its summation terms before using
 them (wrong for |x| >= 0.2)

---
 src/dawson.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dawson.rs b/src/dawson.rs
index 7e5d2a7..8e0ab26 100644
--- a/src/dawson.rs
+++ b/src/dawson.rs
@@ -43,11 +43,11 @@ pub fn dawson(x: f64) -> f64 {
 
         for i in 0..NMAX {
             let cval = f64::exp(-((2. * i as f64 + 1.) * h).powi(2));
+            sum += cval * (e1 / d1 + 1.0 / (d2 * e1));
+
             d1 += 2.;
             d2 -= 2.;
             e1 *= e2;
-
-            sum += cval * (e1 / d1 + 1.0 / (d2 * e1));
         }
 
         ans = (1. / PI.sqrt()) * sign(f64::exp(-xp * xp), x) * sum;
-- 
2.43.0


From e913fe6496f742826eee9b93886b91fa6d660a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:26 +0000
Subject: [PATCH 11/20] fix: faddeeva for |z| >= 7 close to an axis (x * wi -
 1/sqrt(pi) and 1/sqrt(pi) - y * wr cancelled)

---
 src/faddeeva.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/faddeeva.rs b/src/faddeeva.rs
index d304b97..84a0a48 100644
--- a/src/faddeeva.rs
+++ b/src/faddeeva.rs
@@ -46,9 +46,11 @@ pub fn faddeeva(re: f64, im: f64) -> (f64, f64) {
     /*     Case when |ℜ(z)| >> |ℑ(z)|: In this scenario we may have    */
     /* precision issues because the complex norm can be very accurate,  */
     /* but either of the components may be off by orders of magnitude.  */
+    /* Off the real axis, the large |z| are left to the asymptotic      */
+    /* series below, as x * wi - 1/sqrt(pi) cancels completely here.    */
     /* **************************************************************** */
 
-    if yabs < 1e-8 * xabs {
+    if yabs < 1e-8 * xabs && (yabs == 0. || z_sqared < 49.) {
         let wi = im_w_of_x(x);
         let e2 = if xabs > 27. {
             0.
@@ -65,9 +67,11 @@ pub fn faddeeva(re: f64, im: f64) -> (f64, f64) {
     /*     Case when |ℑ(z)| >> |ℜ(z)|: In this scenario we may have    */
     /* precision issues because the complex norm can be very accurate,  */
     /* but either of the components may be off by orders of magnitude.  */
+    /* Off the imaginary axis, the large |z| of the upper half plane    */
+    /* are left to the asymptotic series below, for the same reason.    */
     /* **************************************************************** */
 
-    if xabs < 1e-8 * yabs {
+    if xabs < 1e-8 * yabs && (xabs == 0. || y < 0. || z_sqared < 49.) {
         let wr = erfcx(y);
         if xabs == 0. {
             return (wr, 0.);
-- 
2.43.0


From 2e05d183a9aef86316ef7770e66568ff60cf649b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:14 +0000
Subject: [PATCH 12/20] fix: factorial of a huge argument went through all n
 factors after overflowing

---
 src/utils.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utils.rs b/src/utils.rs
index dbac759..0663a46 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -28,6 +28,10 @@ fn rising_factorial(z: f64, n: usize) -> f64 {
         let l = m.min(n - k);
         let t = (k..k + l).fold(1f64, |acc, i| acc * (z + i as f64));
         r *= t;
+        if r.is_infinite() {
+            // All further factors are at least 1: do not go through the rest of a huge `n`
+            break;
+        }
         k += m;
     }
     r
-- 
2.43.0


From eb67584a8e420bc75fc5cf9a0cd770e600315d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:43 +0000
Subject: [PATCH 13/20] fix: betai used its continued fraction where it
 converges slowly or not at all (switch at (a+1)/(a+2b) instead of
 (a+1)/(a+b+2))

---
 src/beta.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/beta.rs b/src/beta.rs
index 1d33c6d..0299d05 100644
--- a/src/beta.rs
+++ b/src/beta.rs
@@ -70,7 +70,7 @@ pub fn betai(a: f64, b: f64, x: f64) -> f64 {
         return betaiapprox(a, b, x);
     }
     let bt = (ln_gamma(a + b) - ln_gamma(a) - ln_gamma(b) + a * x.ln() + b * (1f64 - x).ln()).exp();
-    if x < (a + 1f64) / (a + b * 2f64) {
+    if x < (a + 1f64) / (a + b + 2f64) {
         bt * betacf(a, b, x) / a
     } else {
         1f64 - bt * betacf(b, a, 1f64 - x) / b
-- 
2.43.0


From d1753c00b0111b39d81da47a1e38f80cef8b0cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:55 +0000
Subject: [PATCH 14/20] fix: invbetai stopped after 10 iterations, far from the
 solution when one parameter is about 1 and the other is large

---
 src/beta.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/beta.rs b/src/beta.rs
index 0299d05..ed05349 100644
--- a/src/beta.rs
+++ b/src/beta.rs
@@ -210,7 +210,7 @@ pub fn invbetai(p: f64, a: f64, b: f64) -> f64 {
         };
     }
     let afac = -ln_gamma(a) - ln_gamma(b) + ln_gamma(a + b);
-    for j in 0..10 {
+    for j in 0..100 {
         if x == 0f64 || x == 1f64 {
             return x;
         }
-- 
2.43.0


From 789b92b89a8ec0ea108aeee0d075373d5cb6ed2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:55 +0000
Subject: [PATCH 15/20] fix: invgammp accepted any step below 2.2e-16 as
 converged, so tiny solutions were off by up to 5%

---
 src/gamma.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gamma.rs b/src/gamma.rs
index 8db0efd..81f8e20 100644
--- a/src/gamma.rs
+++ b/src/gamma.rs
@@ -489,7 +489,7 @@ pub fn invgammp(p: f64, a: f64) -> f64 {
         if x <= 0f64 {
             x = 0.5 * (x + t);
         }
-        if t.abs() < (x * EPS).max(EPS) {
+        if t.abs() <= x * EPS {
             break;
         }
     }
-- 
2.43.0


From 7b5d4974cff07e3727539c8a7c1ffb6198fc960c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:55 +0000
Subject: [PATCH 16/20] fix: besseljy ended its series when a single term
 vanished by accident (besseljy(3.57998, 0.5752) was off by 1.4e-3)

---
 src/bessel.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bessel.rs b/src/bessel.rs
index c677658..ae6f7c9 100644
--- a/src/bessel.rs
+++ b/src/bessel.rs
@@ -346,7 +346,8 @@ pub fn besseljy(nu: f64, x: f64) -> (f64, f64, f64, f64) {
             sum += del;
             let del1 = c * p - i_f64 * del;
             sum1 += del1;
-            if del.abs() < (1f64 + sum.abs()) * EPS {
+            // A single term can vanish by accident long before the series has converged
+            if del.abs() < (1f64 + sum.abs()) * EPS && del1.abs() < (1f64 + sum1.abs()) * EPS {
                 break;
             }
             i += 1;
-- 
2.43.0


From aacadf0e5dd3b0dd4d1a93f5311ac5ea1a971041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:43 +0000
Subject: [PATCH 17/20] fix: In(n, x) for n >= 2 and large x started its
 recurrence too low (In(3, 700) was off by 3%)

---
 src/bessel.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bessel.rs b/src/bessel.rs
index ae6f7c9..5b305ed 100644
--- a/src/bessel.rs
+++ b/src/bessel.rs
@@ -154,7 +154,9 @@ pub fn In(n: u32, x: f64) -> f64 {
         let mut bip = 0f64;
         let mut ans = 0f64;
         let mut bi = 1f64;
-        for j in (1..2 * (n as u64 + (acc * n_f64).sqrt() as u64)).rev() {
+        // The orders above `n` fade out slowly for large `x`, so the recurrence has to start higher up there
+        let spread = (acc * n_f64).max(10f64 * x.abs().min(1000f64));
+        for j in (1..2 * (n as u64 + spread.sqrt() as u64)).rev() {
             let bim = j as f64 * tox * bi + bip;
             bip = bi;
             bi = bim;
-- 
2.43.0


From 2858386dfbe940bad784eb126ba9badca178fc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:35 +0000
Subject: [PATCH 18/20] fix: Yn(n, x) was NaN instead of -inf when a lower
 order already overflows (Yn(100, 0.03))

---
 src/bessel.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bessel.rs b/src/bessel.rs
index 5b305ed..8ba9b7e 100644
--- a/src/bessel.rs
+++ b/src/bessel.rs
@@ -117,6 +117,10 @@ pub fn Yn(n: u32, x: f64) -> f64 {
             let byp = j as f64 * tox * by - bym;
             bym = by;
             by = byp;
+            if by.is_infinite() {
+                // All higher orders overflow as well, and infinities of the same sign cannot be subtracted
+                break;
+            }
         }
         by
     }
-- 
2.43.0


From 425082c88afe562126e3b8bf866f0963f96bc656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:02 +0000
Subject: [PATCH 19/20] fix: besseljy was NaN where Y overflows or the
 recurrence for J does (besseljy(100, 0.03))

---
 src/bessel.rs | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/bessel.rs b/src/bessel.rs
index 8ba9b7e..eb2f511 100644
--- a/src/bessel.rs
+++ b/src/bessel.rs
@@ -218,6 +218,10 @@ pub fn Kn(n: u32, x: f64) -> f64 {
     }
 }
 
+// Where the recurrences of `besseljy` and `besselik` are scaled down, and by how much
+const RESCALE: f64 = 1e50;
+const SCALE: f64 = 1e-200;
+
 /// Calculates the Bessel functions of the first and second kind for non-integer order
 ///
 /// # Arguments
@@ -291,8 +295,8 @@ pub fn besseljy(nu: f64, x: f64) -> (f64, f64, f64, f64) {
     }
     let mut rjl = isign as f64 * FPMIN;
     let mut rjpl = h * rjl;
-    let rjl1 = rjl;
-    let rjp1 = rjpl;
+    let mut rjl1 = rjl;
+    let mut rjp1 = rjpl;
 
     let rjmu: f64;
     let mut rymu: f64;
@@ -305,6 +309,13 @@ pub fn besseljy(nu: f64, x: f64) -> (f64, f64, f64, f64) {
         fact -= xi;
         rjpl = fact * rjtemp - rjl;
         rjl = rjtemp;
+        if rjl.abs() > RESCALE {
+            // Only the ratios matter, so stay clear of an overflow
+            rjl *= SCALE;
+            rjpl *= SCALE;
+            rjl1 *= SCALE;
+            rjp1 *= SCALE;
+        }
     }
     if rjl == 0f64 {
         rjl = EPS;
@@ -428,9 +439,19 @@ pub fn besseljy(nu: f64, x: f64) -> (f64, f64, f64, f64) {
         let rytemp = (xmu + i as f64) * xi2 * ry1 - rymu;
         rymu = ry1;
         ry1 = rytemp;
+        if rymu.is_infinite() {
+            // All higher orders overflow as well
+            ry1 = rymu;
+            break;
+        }
     }
     let yo = rymu;
-    let ypo = nu * xi * rymu - ry1;
+    let ypo = if ry1.is_infinite() {
+        // Y' = (nu / x) Y_nu - Y_(nu + 1), where the last term is the larger one
+        -ry1
+    } else {
+        nu * xi * rymu - ry1
+    };
 
     (jo, yo, jpo, ypo)
 }
-- 
2.43.0


From 97d64cc2a6f4bf4d93a81b7d9a7abc6c5d1eb973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:41 +0000
Subject: [PATCH 20/20] fix: besselik was NaN where K overflows or the
 recurrence for I does (besselik(170, 0.1))

---
 src/bessel.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/bessel.rs b/src/bessel.rs
index eb2f511..1a8c616 100644
--- a/src/bessel.rs
+++ b/src/bessel.rs
@@ -642,14 +642,21 @@ pub fn besselik(nu: f64, x: f64) -> (f64, f64, f64, f64) {
     }
     let mut ril = FPMIN;
     let mut ripl = h * ril;
-    let ril1 = ril;
-    let rip1 = ripl;
+    let mut ril1 = ril;
+    let mut rip1 = ripl;
     let mut fact = nu * xi;
     for _ in (0..nl).rev() {
         let ritemp = fact * ril + ripl;
         fact -= xi;
         ripl = fact * ritemp + ril;
         ril = ritemp;
+        if ril > RESCALE {
+            // Only the ratios matter, so stay clear of an overflow
+            ril *= SCALE;
+            ripl *= SCALE;
+            ril1 *= SCALE;
+            rip1 *= SCALE;
+        }
     }
     let f = ripl / ril;
 
@@ -750,7 +757,12 @@ pub fn besselik(nu: f64, x: f64) -> (f64, f64, f64, f64) {
         rk1 = rktemp;
     }
     let ko = rkmu;
-    let kpo = nu * xi * rkmu - rk1;
+    let kpo = if rk1.is_infinite() {
+        // K' = (nu / x) K_nu - K_(nu + 1), where the last term is the larger one
+        -rk1
+    } else {
+        nu * xi * rkmu - rk1
+    };
 
     (io, ko, ipo, kpo)
 }
-- 
2.43.0

