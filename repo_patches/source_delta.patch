From b19b698e356e68c86e8afd3e1099555f5c6baf6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 001/203] fix: Empty holds for arrays of length zero, not for
 all others

Not(Empty) rejected every non-empty array, so that no set of concentrations
(and no Dirichlet distribution) could be constructed.
---
 src/params/constraints.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/params/constraints.rs b/src/params/constraints.rs
index faedb27..12c8d9f 100644
--- a/src/params/constraints.rs
+++ b/src/params/constraints.rs
@@ -397,7 +397,7 @@ impl Display for Empty {
 }
 
 impl<const N: usize, T> Constraint<[T; N]> for Empty {
-    fn is_satisfied_by(&self, vec: &[T; N]) -> bool { N > 0 }
+    fn is_satisfied_by(&self, _: &[T; N]) -> bool { N == 0 }
 }
 
 impl<T> Constraint<Vec<T>> for Empty {
-- 
2.43.0


From 8d224bf365eda993026068b6e252aa19b843c6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 002/203] fix: binomial coefficients for k > n and for products
 beyond 64 bits

choose(n, k) underflowed for k > n, and overflowed in intermediate products
from n = 63 on although the coefficient fits in 64 bits.
---
 src/utils.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 08220d5..172e3b9 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -21,9 +21,14 @@ pub fn log_factorial_stirling(n: u64) -> f64 {
 }
 
 pub fn choose(n: u64, k: u64) -> u64 {
+    if k > n {
+        return 0;
+    }
+
     let k = if k > n - k { n - k } else { k };
 
-    (0..k).fold(1, |acc, i| acc * (n - i) / (i + 1))
+    // Intermediate products can exceed 64 bits when the coefficient itself does not.
+    (0..k).fold(1, |acc, i| (acc as u128 * (n - i) as u128 / (i + 1) as u128) as u64)
 }
 
 #[cfg(feature = "serde")]
-- 
2.43.0


From 246e232f9867b352b3a874a7e131348aa87a75b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:13 +0000
Subject: [PATCH 003/203] fix: Arcsine: cdf is 0 below and 1 above the support

---
 src/univariate/arcsine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/arcsine.rs b/src/univariate/arcsine.rs
index 7eb766b..1ccd40b 100644
--- a/src/univariate/arcsine.rs
+++ b/src/univariate/arcsine.rs
@@ -56,7 +56,7 @@ impl Distribution for Arcsine {
         let a = self.0.a.0;
         let w = self.0.w.0;
 
-        let xab = (x - a) / w;
+        let xab = ((x - a) / w).max(0.0).min(1.0);
 
         Probability::new_unchecked(TWO_OVER_PI * xab.sqrt().asin())
     }
-- 
2.43.0


From 8c10dee99d0ffc515f8bc6a62eb5fbefdb3484d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:13 +0000
Subject: [PATCH 004/203] fix: Arcsine: density is 0 outside the support

---
 src/univariate/arcsine.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/univariate/arcsine.rs b/src/univariate/arcsine.rs
index 1ccd40b..10f5f94 100644
--- a/src/univariate/arcsine.rs
+++ b/src/univariate/arcsine.rs
@@ -67,6 +67,11 @@ impl Distribution for Arcsine {
 impl ContinuousDistribution for Arcsine {
     fn pdf(&self, x: &f64) -> f64 {
         let (a, b) = get_params!(self);
+
+        if *x < a || *x > b {
+            return 0.0;
+        }
+
         let xab = (x - a) * (b - x);
 
         ONE_OVER_PI / xab.sqrt()
-- 
2.43.0


From b22d928fbd46d59a65505d3f8435f8ca952f742a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:13 +0000
Subject: [PATCH 005/203] fix: Arcsine: entropy depends on the width of the
 support

---
 src/univariate/arcsine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/arcsine.rs b/src/univariate/arcsine.rs
index 10f5f94..a8b7850 100644
--- a/src/univariate/arcsine.rs
+++ b/src/univariate/arcsine.rs
@@ -115,7 +115,7 @@ impl Modes for Arcsine {
 }
 
 impl ShannonEntropy for Arcsine {
-    fn shannon_entropy(&self) -> f64 { PI_OVER_4.ln() }
+    fn shannon_entropy(&self) -> f64 { PI_OVER_4.ln() + self.0.w.0.ln() }
 }
 
 impl fmt::Display for Arcsine {
-- 
2.43.0


From 31ed50bd94d8706de19d17eb0bcc7c46ea0f451e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:13 +0000
Subject: [PATCH 006/203] fix: Beta: cdf is 0 below and 1 above the support

---
 src/univariate/beta.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/beta.rs b/src/univariate/beta.rs
index 00dc52c..07658e3 100644
--- a/src/univariate/beta.rs
+++ b/src/univariate/beta.rs
@@ -55,7 +55,7 @@ impl Distribution for Beta {
     fn cdf(&self, x: &f64) -> Probability {
         let (alpha, beta) = get_params!(self);
 
-        Probability::new_unchecked(x.betainc(alpha, beta))
+        Probability::new_unchecked(x.max(0.0).min(1.0).betainc(alpha, beta))
     }
 
     fn sample<R: rand::Rng + ?Sized>(&self, rng: &mut R) -> f64 {
-- 
2.43.0


From 225594e296b8382c5867306d35b41826066e85c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:13 +0000
Subject: [PATCH 007/203] fix: Beta: density is 0 outside the support

---
 src/univariate/beta.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/univariate/beta.rs b/src/univariate/beta.rs
index 07658e3..daeb6d4 100644
--- a/src/univariate/beta.rs
+++ b/src/univariate/beta.rs
@@ -71,6 +71,10 @@ impl ContinuousDistribution for Beta {
     fn pdf(&self, x: &f64) -> f64 {
         let (a, b) = get_params!(self);
 
+        if *x < 0.0 || *x > 1.0 {
+            return 0.0;
+        }
+
         let numerator = x.powf(a - 1.0) * (1.0 - x).powf(b - 1.0);
         let denominator = a.beta(b);
 
-- 
2.43.0


From 64e65ff3447658f5a98f4c0e9793bf2ba13e1481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:13 +0000
Subject: [PATCH 008/203] fix: Beta: excess kurtosis formula

---
 src/univariate/beta.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/beta.rs b/src/univariate/beta.rs
index daeb6d4..a30e948 100644
--- a/src/univariate/beta.rs
+++ b/src/univariate/beta.rs
@@ -114,7 +114,7 @@ impl UvMoments for Beta {
 
         let apbp2 = apb + 2.0;
 
-        3.0 * asb * asb * (apb + 1.0) - amb * apbp2 / amb / apbp2 / (apb + 3.0)
+        6.0 * (asb * asb * (apb + 1.0) - amb * apbp2) / amb / apbp2 / (apb + 3.0)
     }
 }
 
-- 
2.43.0


From 75e64bc54b64943c1681d91c9499adc9c24363d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:13 +0000
Subject: [PATCH 009/203] fix: Beta: density peaking at one end of the support
 has its mode there

---
 src/univariate/beta.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/univariate/beta.rs b/src/univariate/beta.rs
index a30e948..ddb51fe 100644
--- a/src/univariate/beta.rs
+++ b/src/univariate/beta.rs
@@ -150,6 +150,10 @@ impl Modes for Beta {
             vec![(a - 1.0) / (a + b - 2.0)]
         } else if a < 1.0 && b < 1.0 {
             vec![0.0, 1.0]
+        } else if a < b {
+            vec![0.0]
+        } else if b < a {
+            vec![1.0]
         } else {
             vec![]
         }
-- 
2.43.0


From ec84768cf3f60e9223763d0fa396903bd1e6eb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 010/203] fix: BetaPrime: cdf below the support and at large
 arguments

---
 src/univariate/beta_prime.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/univariate/beta_prime.rs b/src/univariate/beta_prime.rs
index 8484564..9b9cdd8 100644
--- a/src/univariate/beta_prime.rs
+++ b/src/univariate/beta_prime.rs
@@ -52,7 +52,15 @@ impl Distribution for BetaPrime {
 
         let (alpha, beta) = get_params!(self);
 
-        Probability::new_unchecked((x / (1.0 + x)).betainc(alpha, beta))
+        if *x <= 0.0 {
+            return Probability::zero();
+        }
+
+        Probability::new_unchecked(if *x <= 1.0 {
+            (x / (1.0 + x)).betainc(alpha, beta)
+        } else {
+            1.0 - (1.0 / (1.0 + x)).betainc(beta, alpha)
+        })
     }
 
     fn sample<R: Rng + ?Sized>(&self, _: &mut R) -> f64 { unimplemented!() }
-- 
2.43.0


From 201a3249402e2fe741c326b11a7964587c4ea050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 011/203] fix: BetaPrime: density is 0 outside the support and
 does not overflow

---
 src/univariate/beta_prime.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/univariate/beta_prime.rs b/src/univariate/beta_prime.rs
index 9b9cdd8..da87159 100644
--- a/src/univariate/beta_prime.rs
+++ b/src/univariate/beta_prime.rs
@@ -72,7 +72,11 @@ impl ContinuousDistribution for BetaPrime {
 
         let (a, b) = get_params!(self);
 
-        let numerator = x.powf(a - 1.0) * (1.0 + x).powf(-a - b);
+        if *x < 0.0 || *x == std::f64::INFINITY {
+            return 0.0;
+        }
+
+        let numerator = (x / (1.0 + x)).powf(a - 1.0) * (1.0 + x).powf(-1.0 - b);
         let denominator = a.beta(b);
 
         numerator / denominator
-- 
2.43.0


From 32292ca326dd612fa9e6d68ed466d4d37690f69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 012/203] fix: BetaPrime: excess kurtosis formula, undefined
 for beta <= 4

---
 src/univariate/beta_prime.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/univariate/beta_prime.rs b/src/univariate/beta_prime.rs
index da87159..14bae84 100644
--- a/src/univariate/beta_prime.rs
+++ b/src/univariate/beta_prime.rs
@@ -122,9 +122,14 @@ impl UvMoments for BetaPrime {
 
     fn excess_kurtosis(&self) -> f64 {
         let (a, b) = get_params!(self);
+
+        if b <= 4.0 {
+            undefined!("kurtosis is undefined for values of beta <= 4.")
+        }
+
         let bm1 = b - 1.0;
 
-        let numerator = 6.0 * (a + bm1) * (5.0 * b - 11.0) + bm1 * bm1 * (b - 2.0);
+        let numerator = 6.0 * (a * (a + bm1) * (5.0 * b - 11.0) + bm1 * bm1 * (b - 2.0));
         let denominator = a * (a + bm1) * (b - 3.0) * (b - 4.0);
 
         numerator / denominator
-- 
2.43.0


From f92b55b80913edf33ae27fd8c1c7b4f592ea7718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 013/203] fix: BetaPrime: entropy formula

---
 src/univariate/beta_prime.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/univariate/beta_prime.rs b/src/univariate/beta_prime.rs
index 14bae84..5777a33 100644
--- a/src/univariate/beta_prime.rs
+++ b/src/univariate/beta_prime.rs
@@ -155,8 +155,7 @@ impl ShannonEntropy for BetaPrime {
         let (a, b) = get_params!(self);
         let apb = a + b;
 
-        a.logbeta(b) - (a - 1.0) * a.digamma() - (b - 1.0) * b.digamma()
-            + (apb - 2.0) * apb.digamma()
+        a.logbeta(b) - (a - 1.0) * a.digamma() - (b + 1.0) * b.digamma() + apb * apb.digamma()
     }
 }
 
-- 
2.43.0


From 56307901f3aba6caa396d485a3385a374ed7575b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 014/203] fix: Chi: cdf evaluates the incomplete gamma function
 with its arguments in order

---
 src/univariate/chi.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/univariate/chi.rs b/src/univariate/chi.rs
index 0b1a937..61869ce 100644
--- a/src/univariate/chi.rs
+++ b/src/univariate/chi.rs
@@ -43,7 +43,9 @@ impl Distribution for Chi {
     fn params(&self) -> Params { self.0 }
 
     fn cdf(&self, x: &f64) -> Probability {
-        Probability::new_unchecked((get_k!(self) / 2.0).gammainc(x * x / 2.0))
+        let x = x.max(0.0);
+
+        Probability::new_unchecked((x * x / 2.0).gammainc(get_k!(self) / 2.0))
     }
 
     fn sample<R: Rng + ?Sized>(&self, _: &mut R) -> f64 { unimplemented!() }
-- 
2.43.0


From 43c40745922ab99a67a94203e13cc0b9b748e3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 015/203] fix: Chi: density is 0 below the support and does not
 overflow

---
 src/univariate/chi.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/univariate/chi.rs b/src/univariate/chi.rs
index 61869ce..d727905 100644
--- a/src/univariate/chi.rs
+++ b/src/univariate/chi.rs
@@ -55,9 +55,15 @@ impl ContinuousDistribution for Chi {
     fn pdf(&self, x: &f64) -> f64 {
         let k = get_k!(self);
         let ko2 = k / 2.0;
-        let norm = 2.0f64.powf(ko2 - 1.0) * ko2.gamma();
+        let log_norm = (ko2 - 1.0) * 2.0f64.ln() + ko2.loggamma();
 
-        x.powf(k - 1.0) * (-x * x / 2.0).exp() / norm
+        if *x < 0.0 {
+            return 0.0;
+        }
+
+        let log_pow = if k == 1.0 { 0.0 } else { (k - 1.0) * x.ln() };
+
+        (log_pow - x * x / 2.0 - log_norm).exp()
     }
 }
 
-- 
2.43.0


From e065be71a1babab4f6075e0e1ab2cf11d1c468a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 016/203] fix: Chi: mean does not overflow for many degrees of
 freedom

---
 src/univariate/chi.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/chi.rs b/src/univariate/chi.rs
index d727905..0d2ef3b 100644
--- a/src/univariate/chi.rs
+++ b/src/univariate/chi.rs
@@ -73,7 +73,7 @@ impl UvMoments for Chi {
     fn mean(&self) -> f64 {
         let k = get_k!(self);
 
-        2.0f64.sqrt() * ((k + 1.0) / 2.0).gamma() / (k / 2.0).gamma()
+        2.0f64.sqrt() * (((k + 1.0) / 2.0).loggamma() - (k / 2.0).loggamma()).exp()
     }
 
     fn variance(&self) -> f64 {
-- 
2.43.0


From 470205cb95f8e6519974990cd0811fcdc3b3c8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 017/203] fix: Chi: entropy formula

---
 src/univariate/chi.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/chi.rs b/src/univariate/chi.rs
index 0d2ef3b..71998ca 100644
--- a/src/univariate/chi.rs
+++ b/src/univariate/chi.rs
@@ -127,7 +127,7 @@ impl ShannonEntropy for Chi {
         let k = get_k!(self);
         let ko2 = k / 2.0;
 
-        ko2.gamma().ln() + (k - 2.0f64.ln() - (k - 1.0) * ko2.digamma())
+        ko2.loggamma() + (k - 2.0f64.ln() - (k - 1.0) * ko2.digamma()) / 2.0
     }
 }
 
-- 
2.43.0


From 98b3bbf17f5d07d02a4b98134b7767281823ee01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 018/203] fix: ChiSq: cdf is the regularised incomplete gamma
 function at x / 2

---
 src/univariate/chi_sq.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/chi_sq.rs b/src/univariate/chi_sq.rs
index b72f1dc..5b2eafe 100644
--- a/src/univariate/chi_sq.rs
+++ b/src/univariate/chi_sq.rs
@@ -46,7 +46,7 @@ impl Distribution for ChiSq {
         let k = get_k!(self);
         let ko2 = k / 2.0;
 
-        Probability::new_unchecked(ko2.gammainc(x / 2.0) / ko2.gamma())
+        Probability::new_unchecked((x.max(0.0) / 2.0).gammainc(ko2))
     }
 
     fn sample<R: rand::Rng + ?Sized>(&self, rng: &mut R) -> f64 {
-- 
2.43.0


From adc4c5d2dd4dd92f75021bb60008aa09ce7c818f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 019/203] fix: ChiSq: density is 0 below the support and does
 not overflow

---
 src/univariate/chi_sq.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/univariate/chi_sq.rs b/src/univariate/chi_sq.rs
index 5b2eafe..fabc27b 100644
--- a/src/univariate/chi_sq.rs
+++ b/src/univariate/chi_sq.rs
@@ -62,9 +62,15 @@ impl ContinuousDistribution for ChiSq {
     fn pdf(&self, x: &f64) -> f64 {
         let k = get_k!(self);
         let ko2 = k / 2.0;
-        let norm = 2.0f64.powf(ko2) * ko2.gamma();
+        let log_norm = ko2 * 2.0f64.ln() + ko2.loggamma();
 
-        x.powf(ko2 - 1.0) * (-x / 2.0).exp() / norm
+        if *x < 0.0 {
+            return 0.0;
+        }
+
+        let log_pow = if ko2 == 1.0 { 0.0 } else { (ko2 - 1.0) * x.ln() };
+
+        (log_pow - x / 2.0 - log_norm).exp()
     }
 }
 
-- 
2.43.0


From 8e4bcb7a6ec511974c9de6a350cfb861e3c8c9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 020/203] fix: ChiSq: entropy does not overflow for many
 degrees of freedom

---
 src/univariate/chi_sq.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/chi_sq.rs b/src/univariate/chi_sq.rs
index fabc27b..f1048e7 100644
--- a/src/univariate/chi_sq.rs
+++ b/src/univariate/chi_sq.rs
@@ -105,7 +105,7 @@ impl ShannonEntropy for ChiSq {
         let k = get_k!(self);
         let ko2 = k / 2.0;
 
-        ko2 + (2.0 * ko2.gamma()).ln() + (1.0 - ko2) * ko2.digamma()
+        ko2 + 2.0f64.ln() + ko2.loggamma() + (1.0 - ko2) * ko2.digamma()
     }
 }
 
-- 
2.43.0


From 21837c71622ed9594fdcb5a29ddd7508cf61c0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 021/203] fix: ChiSq: sums of variables with different degrees
 of freedom are chi-squared too

---
 src/univariate/chi_sq.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/univariate/chi_sq.rs b/src/univariate/chi_sq.rs
index f1048e7..d17dcd7 100644
--- a/src/univariate/chi_sq.rs
+++ b/src/univariate/chi_sq.rs
@@ -116,8 +116,6 @@ impl Convolution<ChiSq> for ChiSq {
         let k1 = self.0.k.0;
         let k2 = rv.0.k.0;
 
-        assert_constraint!(k1 == k2)?;
-
         Ok(ChiSq::new_unchecked(k1 + k2))
     }
 }
-- 
2.43.0


From 85a11db1ee331bf488162529eab9ccefbef663b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 022/203] fix: Cosine: cdf is 0 below and 1 above the support

---
 src/univariate/cosine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/cosine.rs b/src/univariate/cosine.rs
index ffbaa21..33bb1d1 100644
--- a/src/univariate/cosine.rs
+++ b/src/univariate/cosine.rs
@@ -57,7 +57,7 @@ impl Distribution for Cosine {
     fn params(&self) -> Params { self.0 }
 
     fn cdf(&self, x: &f64) -> Probability {
-        let z = self.z(*x);
+        let z = self.z(*x).max(-1.0).min(1.0);
 
         Probability::new_unchecked(0.5 * (1.0 + z + ONE_OVER_PI * (z * PI).sin()))
     }
-- 
2.43.0


From d6e416fb8c4826cdf906122969837c4be78ad964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 023/203] fix: Cosine: density scales with the width and is 0
 outside the support

---
 src/univariate/cosine.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/univariate/cosine.rs b/src/univariate/cosine.rs
index 33bb1d1..4a2e682 100644
--- a/src/univariate/cosine.rs
+++ b/src/univariate/cosine.rs
@@ -66,7 +66,13 @@ impl Distribution for Cosine {
 }
 
 impl ContinuousDistribution for Cosine {
-    fn pdf(&self, x: &f64) -> f64 { 0.5 * self.hvc(*x) }
+    fn pdf(&self, x: &f64) -> f64 {
+        if self.z(*x).abs() > 1.0 {
+            return 0.0;
+        }
+
+        self.hvc(*x) / self.0.s.0
+    }
 }
 
 impl Univariate for Cosine {}
-- 
2.43.0


From 3281905b3a314e3f7253a3d593b94b07b36aab7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 024/203] fix: Cosine: excess kurtosis formula

---
 src/univariate/cosine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/cosine.rs b/src/univariate/cosine.rs
index 4a2e682..56a3e6c 100644
--- a/src/univariate/cosine.rs
+++ b/src/univariate/cosine.rs
@@ -91,7 +91,7 @@ impl UvMoments for Cosine {
     fn excess_kurtosis(&self) -> f64 {
         let v = PI2 - 6.0;
 
-        6.0 * (60.0 - PI4) / 5.0 / v / v
+        6.0 * (90.0 - PI4) / 5.0 / v / v
     }
 }
 
-- 
2.43.0


From b601d3fbfa3cf57a147cf522d93ced3db3563dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 025/203] fix: Erlang: cdf is the regularised incomplete gamma
 function at lambda x

---
 src/univariate/erlang.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/erlang.rs b/src/univariate/erlang.rs
index b189d5d..93b4098 100644
--- a/src/univariate/erlang.rs
+++ b/src/univariate/erlang.rs
@@ -53,7 +53,7 @@ impl Distribution for Erlang {
     fn log_cdf(&self, x: &f64) -> f64 {
         let (k, lambda) = get_params!(self);
 
-        (k as f64).gammainc(lambda * x).ln() - crate::utils::log_factorial_stirling(k as u64)
+        (lambda * x.max(0.0)).gammainc(k as f64).ln()
     }
 
     fn sample<R: Rng + ?Sized>(&self, _: &mut R) -> f64 { unimplemented!() }
-- 
2.43.0


From cf26497837dede6df11098304e94ca706908a11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 026/203] fix: Erlang: log density uses ln x and is -inf below
 the support

---
 src/univariate/erlang.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/univariate/erlang.rs b/src/univariate/erlang.rs
index 93b4098..8cb03a5 100644
--- a/src/univariate/erlang.rs
+++ b/src/univariate/erlang.rs
@@ -63,7 +63,13 @@ impl ContinuousDistribution for Erlang {
     fn log_pdf(&self, x: &f64) -> f64 {
         let (k, lambda) = get_params!(self);
 
-        k as f64 * lambda.ln() + (k - 1) as f64 * x
+        if *x < 0.0 {
+            return -std::f64::INFINITY;
+        }
+
+        let log_pow = if k == 1 { 0.0 } else { (k - 1) as f64 * x.ln() };
+
+        k as f64 * lambda.ln() + log_pow
             - lambda * x
             - crate::utils::log_factorial_stirling(k as u64 - 1)
     }
-- 
2.43.0


From b99143e4048b10e772dc13ffee658f5b5f7ebe17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 027/203] fix: Exponential: cdf is 0 below the support

---
 src/univariate/exponential.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/exponential.rs b/src/univariate/exponential.rs
index 0740380..e09f44c 100644
--- a/src/univariate/exponential.rs
+++ b/src/univariate/exponential.rs
@@ -47,7 +47,7 @@ impl Distribution for Exponential {
     fn params(&self) -> Params { self.0 }
 
     fn cdf(&self, x: &f64) -> Probability {
-        Probability::new_unchecked(1.0 - (-get_lambda!(self) * x).exp())
+        Probability::new_unchecked(1.0 - (-get_lambda!(self) * x.max(0.0)).exp())
     }
 
     fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> f64 {
-- 
2.43.0


From fdbe8ae2acbf13686180c25bdc366f9a26b51007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 028/203] fix: Exponential: density is 0 below the support

---
 src/univariate/exponential.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/univariate/exponential.rs b/src/univariate/exponential.rs
index e09f44c..d887fc7 100644
--- a/src/univariate/exponential.rs
+++ b/src/univariate/exponential.rs
@@ -61,6 +61,10 @@ impl ContinuousDistribution for Exponential {
     fn pdf(&self, x: &f64) -> f64 {
         let l = get_lambda!(self);
 
+        if *x < 0.0 {
+            return 0.0;
+        }
+
         l * (-l * x).exp()
     }
 }
-- 
2.43.0


From cb528f64f4b1a940fd364ad7dd7cecdae64ee977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 029/203] fix: Exponential: kurtosis is 9

---
 src/univariate/exponential.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/exponential.rs b/src/univariate/exponential.rs
index d887fc7..bc38aea 100644
--- a/src/univariate/exponential.rs
+++ b/src/univariate/exponential.rs
@@ -82,7 +82,7 @@ impl UvMoments for Exponential {
 
     fn skewness(&self) -> f64 { 2.0 }
 
-    fn kurtosis(&self) -> f64 { 3.0 }
+    fn kurtosis(&self) -> f64 { 9.0 }
 
     fn excess_kurtosis(&self) -> f64 { 6.0 }
 }
-- 
2.43.0


From 691a42ab116dc84ecb9e75c1805c1febd340f8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 030/203] fix: Exponential: quantile takes the logarithm of the
 survival probability

---
 src/univariate/exponential.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/exponential.rs b/src/univariate/exponential.rs
index bc38aea..ed568cf 100644
--- a/src/univariate/exponential.rs
+++ b/src/univariate/exponential.rs
@@ -88,7 +88,7 @@ impl UvMoments for Exponential {
 }
 
 impl Quantiles for Exponential {
-    fn quantile(&self, p: Probability) -> f64 { -(p.not().unwrap()) / get_lambda!(self) }
+    fn quantile(&self, p: Probability) -> f64 { -(p.not().unwrap()).ln() / get_lambda!(self) }
 
     fn median(&self) -> f64 { self.mean() * 2.0f64.ln() }
 }
-- 
2.43.0


From 277bb0cbc87cda9c3eee77ecde3481bf6427bcec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 031/203] fix: Exponential: Fisher information is 1 / lambda^2

---
 src/univariate/exponential.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/exponential.rs b/src/univariate/exponential.rs
index ed568cf..341c8de 100644
--- a/src/univariate/exponential.rs
+++ b/src/univariate/exponential.rs
@@ -105,7 +105,7 @@ impl FisherInformation<1> for Exponential {
     fn fisher_information(&self) -> [[f64; 1]; 1] {
         let l = get_lambda!(self);
 
-        [[l * l]]
+        [[1.0 / l / l]]
     }
 }
 
-- 
2.43.0


From 64d335908baf055f4c4666a5a4e2709b2eb72fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 032/203] fix: FDist: cdf is 0 below the support

---
 src/univariate/f_dist.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/univariate/f_dist.rs b/src/univariate/f_dist.rs
index 0004375..dc60f83 100644
--- a/src/univariate/f_dist.rs
+++ b/src/univariate/f_dist.rs
@@ -49,6 +49,10 @@ impl Distribution for FDist {
         let (d1, d2) = get_params!(self);
         let (d1, d2) = (d1 as f64, d2 as f64);
 
+        if *x <= 0.0 {
+            return Probability::zero();
+        }
+
         let x = d1 * x / (d1 * x + d2);
 
         Probability::new_unchecked(x.betainc(d1 / 2.0, d2 / 2.0))
-- 
2.43.0


From 038f7d7c18f414e631b87dcdd3f3d02641301879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 033/203] fix: FDist: density is 0 below the support and does
 not overflow

---
 src/univariate/f_dist.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/univariate/f_dist.rs b/src/univariate/f_dist.rs
index dc60f83..920d579 100644
--- a/src/univariate/f_dist.rs
+++ b/src/univariate/f_dist.rs
@@ -76,10 +76,15 @@ impl ContinuousDistribution for FDist {
         let (d1, d2) = get_params!(self);
         let (d1, d2) = (d1 as f64, d2 as f64);
 
-        let numerator = ((d1 * x).powf(d1) * d2.powf(d2) / (d1 * x + d2).powf(d1 + d2)).sqrt();
-        let denominator = x * (d1 / 2.0).beta(d2 / 2.0);
+        if *x < 0.0 {
+            return 0.0;
+        }
+
+        let log_pow = if d1 == 2.0 { 0.0 } else { (d1 / 2.0 - 1.0) * x.ln() };
+        let log_numerator = log_pow
+            + (d1 * d1.ln() + d2 * d2.ln() - (d1 + d2) * (d1 * x + d2).ln()) / 2.0;
 
-        numerator / denominator
+        (log_numerator - (d1 / 2.0).logbeta(d2 / 2.0)).exp()
     }
 }
 
-- 
2.43.0


From 2f1d9f0635ea6842dc5b74d6fd50889cfa60a042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 034/203] fix: FDist: skewness is undefined for d2 <= 6

---
 src/univariate/f_dist.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/f_dist.rs b/src/univariate/f_dist.rs
index 920d579..364a2f4 100644
--- a/src/univariate/f_dist.rs
+++ b/src/univariate/f_dist.rs
@@ -116,7 +116,7 @@ impl UvMoments for FDist {
 
     fn skewness(&self) -> f64 {
         match self.0.d2.0 {
-            d2 if d2 <= 4 => undefined!("Skewness is undefined for values of d2 <= 6."),
+            d2 if d2 <= 6 => undefined!("Skewness is undefined for values of d2 <= 6."),
             d2 => {
                 let (d1, d2) = (self.0.d1.0 as f64, d2 as f64);
 
-- 
2.43.0


From 516dab860f748caa34a189918d75892b14dc8718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 035/203] fix: FDist: excess kurtosis formula, undefined for d2
 <= 8

---
 src/univariate/f_dist.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/univariate/f_dist.rs b/src/univariate/f_dist.rs
index 364a2f4..e5882a5 100644
--- a/src/univariate/f_dist.rs
+++ b/src/univariate/f_dist.rs
@@ -130,13 +130,13 @@ impl UvMoments for FDist {
 
     fn excess_kurtosis(&self) -> f64 {
         match self.0.d2.0 {
-            d2 if d2 <= 4 => undefined!("Kurtosis is undefined for values of d2 <= 8."),
+            d2 if d2 <= 8 => undefined!("Kurtosis is undefined for values of d2 <= 8."),
             d2 => {
                 let (d1, d2) = (self.0.d1.0 as f64, d2 as f64);
                 let d2m2 = d2 - 2.0;
 
                 let numerator =
-                    12.0 * d1 * (5.0 * d2 - 22.0) * (d1 + d2m2) + (d2 - 4.0) * d2m2 * d2m2;
+                    12.0 * (d1 * (5.0 * d2 - 22.0) * (d1 + d2m2) + (d2 - 4.0) * d2m2 * d2m2);
                 let denominator = d1 * (d2 - 6.0) * (d2 - 8.0) * (d1 + d2m2);
 
                 numerator / denominator
-- 
2.43.0


From a5cae553030c9ba63efe2b8ad01228fd94368edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 036/203] fix: FDist: entropy formula

---
 src/univariate/f_dist.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/univariate/f_dist.rs b/src/univariate/f_dist.rs
index e5882a5..9e0c595 100644
--- a/src/univariate/f_dist.rs
+++ b/src/univariate/f_dist.rs
@@ -168,11 +168,11 @@ impl ShannonEntropy for FDist {
         let d1o2 = d1 / 2.0;
         let d2o2 = d2 / 2.0;
 
-        d1o2.gamma().ln() + d2o2.gamma().ln() - ((d1 + d2) / 2.0).gamma().ln()
-            + (1.0 - d1o2) * (1.0 + d1o2).digamma()
-            - (1.0 - d2o2) * (1.0 + d2o2).digamma()
+        d1o2.logbeta(d2o2)
+            + (1.0 - d1o2) * d1o2.digamma()
+            - (1.0 + d2o2) * d2o2.digamma()
             + ((d1 + d2) / 2.0) * ((d1 + d2) / 2.0).digamma()
-            + (d1 / d2).ln()
+            + (d2 / d1).ln()
     }
 }
 
-- 
2.43.0


From 5017ca3d36a1b1ec37f8a242e068f330027f0e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 037/203] fix: FoldedNormal: cdf is 0 below the support

---
 src/univariate/folded_normal.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/univariate/folded_normal.rs b/src/univariate/folded_normal.rs
index d856ac8..59042ad 100644
--- a/src/univariate/folded_normal.rs
+++ b/src/univariate/folded_normal.rs
@@ -66,6 +66,7 @@ impl Distribution for FoldedNormal {
 
         let (mu, sigma) = get_params!(self);
         let sqrt_2: f64 = 2.0f64.sqrt();
+        let x = x.max(0.0);
 
         Probability::new_unchecked(
             0.5 * (((x + mu) / sigma / sqrt_2).erf() + ((x - mu) / sigma / sqrt_2).erf()),
-- 
2.43.0


From 2959b7be320442cd7479eccb1bbe8a1e00fbfdb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 038/203] fix: FoldedNormal: density is 0 below the support

---
 src/univariate/folded_normal.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/univariate/folded_normal.rs b/src/univariate/folded_normal.rs
index 59042ad..1a4297e 100644
--- a/src/univariate/folded_normal.rs
+++ b/src/univariate/folded_normal.rs
@@ -89,6 +89,10 @@ impl ContinuousDistribution for FoldedNormal {
     fn pdf(&self, x: &f64) -> f64 {
         let (mu, sigma) = get_params!(self);
 
+        if *x < 0.0 {
+            return 0.0;
+        }
+
         let norm = PI_2.sqrt() * sigma;
         let z_pos = (x + mu) / sigma;
         let z_neg = (x - mu) / sigma;
-- 
2.43.0


From e0048d9cbc46e56cd614c133f357b4f32ee74631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 039/203] fix: FoldedNormal: mode of a density folded from
 either side

---
 src/univariate/folded_normal.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/univariate/folded_normal.rs b/src/univariate/folded_normal.rs
index 1a4297e..f36617a 100644
--- a/src/univariate/folded_normal.rs
+++ b/src/univariate/folded_normal.rs
@@ -131,10 +131,25 @@ impl Modes for FoldedNormal {
     fn modes(&self) -> Vec<f64> {
         let (mu, sigma) = get_params!(self);
 
-        if mu < sigma {
+        let mu = mu.abs();
+
+        if mu <= sigma {
             vec![0.0]
         } else {
-            vec![mu]
+            // The stationary point solves x = mu tanh(mu x / sigma^2) on (0, mu].
+            let (mut lo, mut hi) = (0.0, mu);
+
+            for _ in 0..100 {
+                let x = (lo + hi) / 2.0;
+
+                if x < mu * (mu * x / sigma / sigma).tanh() {
+                    lo = x;
+                } else {
+                    hi = x;
+                }
+            }
+
+            vec![hi]
         }
     }
 }
-- 
2.43.0


From 369f703a81a2724d35ef06eca152da2e0e55cac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 040/203] fix: Frechet: cdf is 0 below the support

---
 src/univariate/frechet.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/univariate/frechet.rs b/src/univariate/frechet.rs
index 8b18dcf..ac6e507 100644
--- a/src/univariate/frechet.rs
+++ b/src/univariate/frechet.rs
@@ -45,6 +45,10 @@ impl Distribution for Frechet {
     fn params(&self) -> Params { Params::new_unchecked(get_alpha!(self)) }
 
     fn cdf(&self, x: &f64) -> Probability {
+        if *x <= 0.0 {
+            return Probability::zero();
+        }
+
         Probability::new_unchecked((-(x.powf(-get_alpha!(self)))).exp())
     }
 
-- 
2.43.0


From 96aa191cfbcaf58aaee9aacd0cf6cc037667a6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 041/203] fix: Frechet: density is 0 below the support and does
 not overflow near 0

---
 src/univariate/frechet.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/univariate/frechet.rs b/src/univariate/frechet.rs
index ac6e507..4636026 100644
--- a/src/univariate/frechet.rs
+++ b/src/univariate/frechet.rs
@@ -61,10 +61,13 @@ impl Distribution for Frechet {
 
 impl ContinuousDistribution for Frechet {
     fn pdf(&self, x: &f64) -> f64 {
-        let cdf = self.cdf(x).unwrap();
         let alpha = get_alpha!(self);
 
-        alpha * x.powf(-1.0 - alpha) * cdf
+        if *x <= 0.0 {
+            return 0.0;
+        }
+
+        (alpha.ln() - (1.0 + alpha) * x.ln() - x.powf(-alpha)).exp()
     }
 }
 
-- 
2.43.0


From b30483a6d1b2c5868f0e2a3c6d44d8b6d3bdba7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 042/203] fix: Frechet: sampling inverts the cdf

---
 src/univariate/frechet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/frechet.rs b/src/univariate/frechet.rs
index 4636026..6b12f88 100644
--- a/src/univariate/frechet.rs
+++ b/src/univariate/frechet.rs
@@ -55,7 +55,7 @@ impl Distribution for Frechet {
     fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> f64 {
         let u = Uniform::default();
 
-        (-u.sample(rng).ln()).powf(1.0 / get_alpha!(self))
+        (-u.sample(rng).ln()).powf(-1.0 / get_alpha!(self))
     }
 }
 
-- 
2.43.0


From e9cb00392930395e13580d19b9f2158f010ed4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 043/203] fix: Gamma: cdf is the regularised incomplete gamma
 function at beta x

---
 src/univariate/gamma.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/gamma.rs b/src/univariate/gamma.rs
index 1dceb84..27493c4 100644
--- a/src/univariate/gamma.rs
+++ b/src/univariate/gamma.rs
@@ -67,7 +67,7 @@ impl Distribution for Gamma {
     fn cdf(&self, x: &f64) -> Probability {
         let (a, b) = get_params!(self);
 
-        Probability::new_unchecked(a.gammainc(b * x) / a.gamma())
+        Probability::new_unchecked((b * x.max(0.0)).gammainc(a))
     }
 
     fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> f64 {
-- 
2.43.0


From 4498f253af2cfbbb754594c9602be12737eee71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 044/203] fix: Gamma: density is 0 below the support and does
 not overflow

---
 src/univariate/gamma.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/univariate/gamma.rs b/src/univariate/gamma.rs
index 27493c4..be62c3e 100644
--- a/src/univariate/gamma.rs
+++ b/src/univariate/gamma.rs
@@ -83,7 +83,13 @@ impl ContinuousDistribution for Gamma {
     fn pdf(&self, x: &f64) -> f64 {
         let (a, b) = get_params!(self);
 
-        b.powf(a) * x.powf(a - 1.0) * (-b * x).exp() / a.gamma()
+        if *x < 0.0 {
+            return 0.0;
+        }
+
+        let log_pow = if a == 1.0 { 0.0 } else { (a - 1.0) * x.ln() };
+
+        (a * b.ln() + log_pow - b * x - a.loggamma()).exp()
     }
 }
 
-- 
2.43.0


From bba7f16f891bd88e16d4e5756e4c2d9f4103a6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 045/203] fix: Gamma: the sampler takes a scale, not a rate

---
 src/univariate/gamma.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/gamma.rs b/src/univariate/gamma.rs
index be62c3e..503ee2d 100644
--- a/src/univariate/gamma.rs
+++ b/src/univariate/gamma.rs
@@ -52,7 +52,7 @@ impl Into<rand_distr::Gamma<f64>> for &Gamma {
     fn into(self) -> rand_distr::Gamma<f64> {
         let (a, b) = get_params!(self);
 
-        rand_distr::Gamma::new(a, b).unwrap()
+        rand_distr::Gamma::new(a, 1.0 / b).unwrap()
     }
 }
 
-- 
2.43.0


From 8a0a9633ead05f72bf680abe60291d1c23d613aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 046/203] fix: Gamma: entropy does not overflow for large
 shapes

---
 src/univariate/gamma.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/gamma.rs b/src/univariate/gamma.rs
index 503ee2d..51d9909 100644
--- a/src/univariate/gamma.rs
+++ b/src/univariate/gamma.rs
@@ -126,7 +126,7 @@ impl ShannonEntropy for Gamma {
     fn shannon_entropy(&self) -> f64 {
         let (a, b) = get_params!(self);
 
-        a - b.ln() + a.gamma().ln() + (1.0 - a) * a.digamma()
+        a - b.ln() + a.loggamma() + (1.0 - a) * a.digamma()
     }
 }
 
-- 
2.43.0


From d81b90e97d122e9d3f5988190792ffa7f36e9cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 047/203] fix: Gamma: log-likelihood is the sum of log
 densities

---
 src/univariate/gamma.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/univariate/gamma.rs b/src/univariate/gamma.rs
index 51d9909..3e64a7f 100644
--- a/src/univariate/gamma.rs
+++ b/src/univariate/gamma.rs
@@ -141,10 +141,10 @@ impl Likelihood for Gamma {
 
         let t1 = samples
             .into_iter()
-            .map(|x| am1 * (x + JITTER).ln() - b * (1.0 - x))
+            .map(|x| am1 * (x + JITTER).ln() - b * x)
             .sum::<f64>();
 
-        t1 - n * (a * (1.0 / b).max(JITTER) + a.gamma().ln())
+        t1 + n * (a * b.max(JITTER).ln() - a.loggamma())
     }
 }
 
-- 
2.43.0


From 4e6508c466d9bc246e1b10a78ae873b58a1313d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 048/203] fix: Gamma: score with respect to the shape

---
 src/univariate/gamma.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/gamma.rs b/src/univariate/gamma.rs
index 3e64a7f..db431ec 100644
--- a/src/univariate/gamma.rs
+++ b/src/univariate/gamma.rs
@@ -160,7 +160,7 @@ impl Score for Gamma {
         let a_digamma = a.digamma();
 
         let [grad_a, grad_b] = samples.into_iter().fold([0.0; 2], |acc, x| {
-            [acc[0] + (x / b).max(JITTER).ln(), acc[1] - x]
+            [acc[0] + (x * b).max(JITTER).ln(), acc[1] - x]
         });
 
         Grad {
-- 
2.43.0


From 73f8d260523079cea55de1be58f125b76fb3640e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 049/203] fix: Gamma: sums need equal rates, not equal shapes

---
 src/univariate/gamma.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/univariate/gamma.rs b/src/univariate/gamma.rs
index db431ec..31dac87 100644
--- a/src/univariate/gamma.rs
+++ b/src/univariate/gamma.rs
@@ -176,8 +176,9 @@ impl Convolution<Gamma> for Gamma {
     fn convolve(self, rv: Gamma) -> Result<Gamma, failure::Error> {
         let (a1, beta) = get_params!(self);
         let a2 = rv.0.alpha.0;
+        let beta2 = rv.0.beta.0;
 
-        assert_constraint!(a1 == a2)?;
+        assert_constraint!(beta == beta2)?;
 
         Ok(Gamma::new_unchecked(a1 + a2, beta))
     }
-- 
2.43.0


From f0a1c5ff8a2dec114cde2f51f8b68f9ef85b9ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:41 +0000
Subject: [PATCH 050/203] fix: GeneralisedExtremeValue: cdf and density are 0
 below the lower endpoint

---
 src/univariate/gev.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/univariate/gev.rs b/src/univariate/gev.rs
index 681cd71..f536bcf 100644
--- a/src/univariate/gev.rs
+++ b/src/univariate/gev.rs
@@ -51,6 +51,8 @@ impl GeneralisedExtremeValue {
 
         if (zeta - 0.0) < 1e-7 {
             (-z).exp()
+        } else if 1.0 + zeta * z <= 0.0 {
+            INFINITY
         } else {
             (1.0 + zeta * z).powf(-1.0 / zeta)
         }
@@ -74,6 +76,10 @@ impl ContinuousDistribution for GeneralisedExtremeValue {
     fn pdf(&self, x: &f64) -> f64 {
         let tx = self.t_func(*x);
 
+        if tx == INFINITY {
+            return 0.0;
+        }
+
         tx.powf(self.0.zeta.0 + 1.0) * (-tx).exp() / self.0.sigma.0
     }
 }
-- 
2.43.0


From d0c64ead71cbae1b69b2cc85dc0bbba66192e6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:41 +0000
Subject: [PATCH 051/203] fix: GeneralisedPareto: cdf is 0 below the location

---
 src/univariate/gpd.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/gpd.rs b/src/univariate/gpd.rs
index dca93f8..292223c 100644
--- a/src/univariate/gpd.rs
+++ b/src/univariate/gpd.rs
@@ -49,7 +49,7 @@ impl Distribution for GeneralisedPareto {
 
     fn cdf(&self, x: &f64) -> Probability {
         let (mu, sigma, zeta) = get_params!(self);
-        let z = (x - mu) / sigma;
+        let z = ((x - mu) / sigma).max(0.0);
 
         Probability::new_unchecked(1.0 - (1.0 + zeta * z).powf(-1.0 / zeta))
     }
-- 
2.43.0


From de52d8f92bf28e17f0ff7756f33cd2b3a90826a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:41 +0000
Subject: [PATCH 052/203] fix: GeneralisedPareto: density is 0 below the
 location

---
 src/univariate/gpd.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/univariate/gpd.rs b/src/univariate/gpd.rs
index 292223c..a7269f6 100644
--- a/src/univariate/gpd.rs
+++ b/src/univariate/gpd.rs
@@ -62,6 +62,10 @@ impl ContinuousDistribution for GeneralisedPareto {
         let (mu, sigma, zeta) = get_params!(self);
         let z = (x - mu) / sigma;
 
+        if z < 0.0 {
+            return 0.0;
+        }
+
         (1.0 + zeta * z).powf(-1.0 / zeta - 1.0) / sigma
     }
 }
-- 
2.43.0


From 0327007370ae5129eafa4d33da349f4cd7515b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:41 +0000
Subject: [PATCH 053/203] fix: GeneralisedPareto: moments exist below the
 critical tail index, not above it

---
 src/univariate/gpd.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/univariate/gpd.rs b/src/univariate/gpd.rs
index a7269f6..d378c55 100644
--- a/src/univariate/gpd.rs
+++ b/src/univariate/gpd.rs
@@ -76,8 +76,8 @@ impl UvMoments for GeneralisedPareto {
     fn mean(&self) -> f64 {
         let (mu, sigma, zeta) = get_params!(self);
 
-        if zeta <= 1.0 {
-            undefined!("Mean is undefined for zeta <= 1.")
+        if zeta >= 1.0 {
+            undefined!("Mean is undefined for zeta >= 1.")
         } else {
             mu + sigma / (1.0 - zeta)
         }
@@ -87,8 +87,8 @@ impl UvMoments for GeneralisedPareto {
         let zeta = self.0.zeta.0;
         let sigma = self.0.sigma.0;
 
-        if zeta <= 0.5 {
-            undefined!("Variance is undefined for zeta <= 1/2.")
+        if zeta >= 0.5 {
+            undefined!("Variance is undefined for zeta >= 1/2.")
         } else {
             sigma * sigma / (1.0 - zeta).powi(2) / (1.0 - 2.0 * zeta)
         }
@@ -97,8 +97,8 @@ impl UvMoments for GeneralisedPareto {
     fn skewness(&self) -> f64 {
         let zeta = self.0.zeta.0;
 
-        if zeta <= ONE_THIRD {
-            undefined!("Skewness is undefined for zeta <= 1/3.")
+        if zeta >= ONE_THIRD {
+            undefined!("Skewness is undefined for zeta >= 1/3.")
         } else {
             2.0 * (1.0 + zeta) * (1.0 - 2.0 * zeta).sqrt() / (1.0 - 3.0 * zeta)
         }
@@ -107,8 +107,8 @@ impl UvMoments for GeneralisedPareto {
     fn excess_kurtosis(&self) -> f64 {
         let zeta = self.0.zeta.0;
 
-        if zeta <= ONE_THIRD {
-            undefined!("Skewness is undefined for zeta <= 1/3.")
+        if zeta >= 0.25 {
+            undefined!("Kurtosis is undefined for zeta >= 1/4.")
         } else {
             3.0 * (1.0 - 2.0 * zeta) * (2.0 * zeta * zeta + zeta + 3.0)
                 / (1.0 - 3.0 * zeta)
-- 
2.43.0


From 3d9a144743d34d0aacc13d2a3f93ac370f5a9ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:41 +0000
Subject: [PATCH 054/203] fix: InvGamma: cdf is the regularised upper
 incomplete gamma function at beta / x

---
 src/univariate/inverse_gamma.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/univariate/inverse_gamma.rs b/src/univariate/inverse_gamma.rs
index f78a3c4..7ed5fc9 100644
--- a/src/univariate/inverse_gamma.rs
+++ b/src/univariate/inverse_gamma.rs
@@ -52,7 +52,11 @@ impl Distribution for InvGamma {
 
         let (alpha, beta) = get_params!(self);
 
-        Probability::new_unchecked(alpha.gammainc(beta / x) / alpha.gamma())
+        if *x <= 0.0 {
+            return Probability::zero();
+        }
+
+        Probability::new_unchecked((beta / x).gammac(alpha))
     }
 
     fn sample<R: Rng + ?Sized>(&self, _: &mut R) -> f64 { unimplemented!() }
-- 
2.43.0


From 7c9198b4f44cb6390a647d63ca58e21c54ec76fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:41 +0000
Subject: [PATCH 055/203] fix: InvGamma: density is 0 below the support and
 does not overflow

---
 src/univariate/inverse_gamma.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/univariate/inverse_gamma.rs b/src/univariate/inverse_gamma.rs
index 7ed5fc9..3d9106f 100644
--- a/src/univariate/inverse_gamma.rs
+++ b/src/univariate/inverse_gamma.rs
@@ -68,7 +68,11 @@ impl ContinuousDistribution for InvGamma {
 
         let (alpha, beta) = get_params!(self);
 
-        beta.powf(alpha) * x.powf(-alpha - 1.0) * (-beta / x).exp() / alpha.gamma()
+        if *x <= 0.0 {
+            return 0.0;
+        }
+
+        (alpha * beta.ln() - (alpha + 1.0) * x.ln() - beta / x - alpha.loggamma()).exp()
     }
 }
 
-- 
2.43.0


From 6a6353bfb4ce2e3ba8045c4c8875a6ac05492340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:41 +0000
Subject: [PATCH 056/203] fix: InvGamma: entropy does not overflow for large
 shapes

---
 src/univariate/inverse_gamma.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/inverse_gamma.rs b/src/univariate/inverse_gamma.rs
index 3d9106f..0a9c962 100644
--- a/src/univariate/inverse_gamma.rs
+++ b/src/univariate/inverse_gamma.rs
@@ -127,7 +127,7 @@ impl ShannonEntropy for InvGamma {
 
         let (alpha, beta) = get_params!(self);
 
-        alpha + (beta * alpha.gamma()).ln() - (1.0 + alpha) * alpha.digamma()
+        alpha + beta.ln() + alpha.loggamma() - (1.0 + alpha) * alpha.digamma()
     }
 }
 
-- 
2.43.0


From 9890fecf3393c05ad0c0a7796e3607bdc6d3ee0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:41 +0000
Subject: [PATCH 057/203] fix: InvNormal: second term of the cdf, and 0 below
 the support

---
 src/univariate/inverse_normal.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/univariate/inverse_normal.rs b/src/univariate/inverse_normal.rs
index ecaca85..65aceae 100644
--- a/src/univariate/inverse_normal.rs
+++ b/src/univariate/inverse_normal.rs
@@ -71,12 +71,17 @@ impl Distribution for InvNormal {
     fn cdf(&self, x: &f64) -> Probability {
         let (mu, lambda) = get_params!(self);
 
+        if *x <= 0.0 {
+            return Probability::zero();
+        }
+
         let xom = x / mu;
         let lox_sqrt = (lambda / x).sqrt();
         let inner_term = lox_sqrt * (xom - 1.0);
 
         let term1 = self.std_norm.cdf(&inner_term).unwrap();
-        let term2 = (2.0 * lambda / mu).exp() * self.std_norm.cdf(&(&inner_term)).unwrap();
+        let outer_term = -lox_sqrt * (xom + 1.0);
+        let term2 = (2.0 * lambda / mu + self.std_norm.cdf(&outer_term).ln()).exp();
 
         Probability::new_unchecked(term1 + term2)
     }
-- 
2.43.0


From 4deabbfc7fdf48a9df1c86e19fd63e75cd47a031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:41 +0000
Subject: [PATCH 058/203] fix: InvNormal: density is 0 below the support

---
 src/univariate/inverse_normal.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/univariate/inverse_normal.rs b/src/univariate/inverse_normal.rs
index 65aceae..f7023ea 100644
--- a/src/univariate/inverse_normal.rs
+++ b/src/univariate/inverse_normal.rs
@@ -108,6 +108,10 @@ impl Distribution for InvNormal {
 impl ContinuousDistribution for InvNormal {
     fn pdf(&self, x: &f64) -> f64 {
         let (mu, lambda) = get_params!(self);
+        if *x <= 0.0 {
+            return 0.0;
+        }
+
         let z = (lambda / PI_2 / x / x / x).sqrt();
 
         let diff = x - mu;
-- 
2.43.0


From b7ebd446aa0992f07be46ab788086a8fbc7755f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:41 +0000
Subject: [PATCH 059/203] fix: InvNormal: excess kurtosis is 15 mu / lambda

---
 src/univariate/inverse_normal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/inverse_normal.rs b/src/univariate/inverse_normal.rs
index f7023ea..677a9d6 100644
--- a/src/univariate/inverse_normal.rs
+++ b/src/univariate/inverse_normal.rs
@@ -141,7 +141,7 @@ impl UvMoments for InvNormal {
     fn excess_kurtosis(&self) -> f64 {
         let (mu, lambda) = get_params!(self);
 
-        16.0 * mu / lambda
+        15.0 * mu / lambda
     }
 }
 
-- 
2.43.0


From a414bdcc1fdb63290573157c8438bc9a73fc20c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:41 +0000
Subject: [PATCH 060/203] fix: Kumaraswamy: cdf is 0 below and 1 above the
 support

---
 src/univariate/kumaraswamy.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/univariate/kumaraswamy.rs b/src/univariate/kumaraswamy.rs
index 0a65ff7..c3f5828 100644
--- a/src/univariate/kumaraswamy.rs
+++ b/src/univariate/kumaraswamy.rs
@@ -50,6 +50,8 @@ impl Distribution for Kumaraswamy {
     fn cdf(&self, x: &f64) -> Probability {
         let (a, b) = get_params!(self);
 
+        let x = x.max(0.0).min(1.0);
+
         Probability::new_unchecked(1.0 - (1.0 - x.powf(a)).powf(b))
     }
 
-- 
2.43.0


From 02562c026cba48b2f2158936245bcd97bb835e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:41 +0000
Subject: [PATCH 061/203] fix: Kumaraswamy: density is 0 outside the support

---
 src/univariate/kumaraswamy.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/univariate/kumaraswamy.rs b/src/univariate/kumaraswamy.rs
index c3f5828..f29f09c 100644
--- a/src/univariate/kumaraswamy.rs
+++ b/src/univariate/kumaraswamy.rs
@@ -67,6 +67,10 @@ impl ContinuousDistribution for Kumaraswamy {
     fn pdf(&self, x: &f64) -> f64 {
         let (a, b) = get_params!(self);
 
+        if *x < 0.0 || *x > 1.0 {
+            return 0.0;
+        }
+
         a * b * x.powf(a - 1.0) * (1.0 - x.powf(a)).powf(b - 1.0)
     }
 }
-- 
2.43.0


From 9530183a3f5372fc2f2b36253280968cb4259162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:41 +0000
Subject: [PATCH 062/203] fix: Kumaraswamy: entropy uses the harmonic number of
 a real argument

---
 src/univariate/kumaraswamy.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/univariate/kumaraswamy.rs b/src/univariate/kumaraswamy.rs
index f29f09c..5a44e9a 100644
--- a/src/univariate/kumaraswamy.rs
+++ b/src/univariate/kumaraswamy.rs
@@ -10,7 +10,11 @@ use spaces::intervals::Closed;
 use std::fmt;
 
 #[inline]
-fn harmonic_n(n: usize) -> f64 { (1..=n).map(|i| 1.0 / i as f64).sum() }
+fn harmonic_n(n: f64) -> f64 {
+    use special_fun::FloatSpecial;
+
+    (n + 1.0).digamma() - 1.0f64.digamma()
+}
 
 shape_params! {
     #[derive(Copy)]
@@ -122,7 +126,7 @@ impl Modes for Kumaraswamy {
 impl ShannonEntropy for Kumaraswamy {
     fn shannon_entropy(&self) -> f64 {
         let (a, b) = get_params!(self);
-        let hb = harmonic_n(b.floor() as usize);
+        let hb = harmonic_n(b);
 
         (1.0 - 1.0 / b) + (1.0 - 1.0 / a) * hb - (a * b).ln()
     }
-- 
2.43.0


From b753c94a7c4bac3e47d7236c84de80a2a8155b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:41 +0000
Subject: [PATCH 063/203] fix: Laplace: cdf and density were each other's
 formula

---
 src/univariate/laplace.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/univariate/laplace.rs b/src/univariate/laplace.rs
index 973014e..703ae89 100644
--- a/src/univariate/laplace.rs
+++ b/src/univariate/laplace.rs
@@ -43,9 +43,17 @@ impl Distribution for Laplace {
     fn params(&self) -> Params { self.0 }
 
     fn cdf(&self, x: &f64) -> Probability {
+        use std::cmp::Ordering::*;
+
         let (mu, b) = get_params!(self);
 
-        Probability::new_unchecked((-((x - mu).abs() / b).abs()).exp() / 2.0 / b)
+        Probability::new_unchecked(match x
+            .partial_cmp(&mu)
+            .expect("Invalid value provided for `mu`.")
+        {
+            Less | Equal => ((x - mu) / b).exp() / 2.0,
+            Greater => 1.0 - ((mu - x) / b).exp() / 2.0,
+        })
     }
 
     fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> f64 {
@@ -60,17 +68,9 @@ impl Distribution for Laplace {
 
 impl ContinuousDistribution for Laplace {
     fn pdf(&self, x: &f64) -> f64 {
-        use std::cmp::Ordering::*;
-
         let (mu, b) = get_params!(self);
 
-        match x
-            .partial_cmp(&mu)
-            .expect("Invalid value provided for `mu`.")
-        {
-            Less | Equal => ((x - mu) / b).exp() / 2.0,
-            Greater => 1.0 - ((mu - x) / b).exp() / 2.0,
-        }
+        (-((x - mu).abs() / b).abs()).exp() / 2.0 / b
     }
 }
 
-- 
2.43.0


From 362345b9f5517cf5d9da3655f29a26f1bbf858cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:41 +0000
Subject: [PATCH 064/203] fix: Levy: cdf takes the square root, and is 0 below
 the location

---
 src/univariate/levy.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/univariate/levy.rs b/src/univariate/levy.rs
index 7d3eae0..137b540 100644
--- a/src/univariate/levy.rs
+++ b/src/univariate/levy.rs
@@ -45,7 +45,11 @@ impl Distribution for Levy {
 
         let (mu, c) = get_params!(self);
 
-        Probability::new_unchecked((c / 2.0 / (x - mu)).erfc())
+        if *x <= mu {
+            return Probability::zero();
+        }
+
+        Probability::new_unchecked((c / 2.0 / (x - mu)).sqrt().erfc())
     }
 
     fn sample<R: Rng + ?Sized>(&self, _: &mut R) -> f64 { unimplemented!() }
-- 
2.43.0


From 451879ff76242eceaa17377e6a3caa4131bf81df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:41 +0000
Subject: [PATCH 065/203] fix: Levy: density is 0 up to the location

---
 src/univariate/levy.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/univariate/levy.rs b/src/univariate/levy.rs
index 137b540..3c199e6 100644
--- a/src/univariate/levy.rs
+++ b/src/univariate/levy.rs
@@ -59,6 +59,10 @@ impl ContinuousDistribution for Levy {
     fn pdf(&self, x: &f64) -> f64 {
         let (mu, c) = get_params!(self);
 
+        if *x <= mu {
+            return 0.0;
+        }
+
         let diff = x - mu;
         let c_over_2 = c / 2.0;
 
-- 
2.43.0


From 8634a7fd35534159e1655b8f751b2e5e6cacd0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:41 +0000
Subject: [PATCH 066/203] fix: Levy: median for every location

---
 src/univariate/levy.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/univariate/levy.rs b/src/univariate/levy.rs
index 3c199e6..4d403d9 100644
--- a/src/univariate/levy.rs
+++ b/src/univariate/levy.rs
@@ -86,12 +86,12 @@ impl Quantiles for Levy {
     fn quantile(&self, _: Probability) -> f64 { unimplemented!() }
 
     fn median(&self) -> f64 {
-        if self.0.mu.0.abs() < 1e-7 {
-            // TODO
-            unimplemented!("Need an implementation of the inverse ERFC function.")
-        } else {
-            undefined!("median of the Levy distribution is defined only for mu = 0.")
-        }
+        use special_fun::FloatSpecial;
+
+        let (mu, c) = get_params!(self);
+        let z = 0.75f64.norm_inv();
+
+        mu + c / z / z
     }
 }
 
-- 
2.43.0


From 095e4ad3faef602a94180b432197c1994ffc4e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:41 +0000
Subject: [PATCH 067/203] fix: Levy: mode for every location

---
 src/univariate/levy.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/univariate/levy.rs b/src/univariate/levy.rs
index 4d403d9..a1393ee 100644
--- a/src/univariate/levy.rs
+++ b/src/univariate/levy.rs
@@ -97,11 +97,9 @@ impl Quantiles for Levy {
 
 impl Modes for Levy {
     fn modes(&self) -> Vec<f64> {
-        if self.0.mu.0.abs() < 1e-7 {
-            vec![self.0.c.0 / 3.0]
-        } else {
-            undefined!("mode of the Levy distribution is defined only for mu = 0.")
-        }
+        let (mu, c) = get_params!(self);
+
+        vec![mu + c / 3.0]
     }
 }
 
-- 
2.43.0


From 17430978436af3b91bc935b9d2380b1793ff53e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:41 +0000
Subject: [PATCH 068/203] fix: Logistic: density does not overflow far below
 the location

---
 src/univariate/logistic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/logistic.rs b/src/univariate/logistic.rs
index e0e4993..4a32ffb 100644
--- a/src/univariate/logistic.rs
+++ b/src/univariate/logistic.rs
@@ -58,7 +58,7 @@ impl Distribution for Logistic {
 
 impl ContinuousDistribution for Logistic {
     fn pdf(&self, x: &f64) -> f64 {
-        let exp_term = (-self.z(*x)).exp();
+        let exp_term = (-self.z(*x).abs()).exp();
         let exp_term_p1 = 1.0 + exp_term;
 
         exp_term / self.0.s.0 / exp_term_p1 / exp_term_p1
-- 
2.43.0


From 99a366ccfda59b130a7995376241f1afbb9a1180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:41 +0000
Subject: [PATCH 069/203] fix: LogNormal: cdf is 0 below the support

---
 src/univariate/lognormal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/lognormal.rs b/src/univariate/lognormal.rs
index c2d2cbb..e03f749 100644
--- a/src/univariate/lognormal.rs
+++ b/src/univariate/lognormal.rs
@@ -51,7 +51,7 @@ impl Distribution for LogNormal {
     fn into_params(self) -> Params { self.0.into_params() }
 
     fn cdf(&self, x: &f64) -> Probability {
-        let ln_x = x.ln();
+        let ln_x = x.max(0.0).ln();
 
         self.0.cdf(&ln_x)
     }
-- 
2.43.0


From 0c973e85cb070b5a6a641b0b191b8d74e7af6738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:41 +0000
Subject: [PATCH 070/203] fix: LogNormal: density includes the 1 / x factor

---
 src/univariate/lognormal.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/univariate/lognormal.rs b/src/univariate/lognormal.rs
index e03f749..50c4d9a 100644
--- a/src/univariate/lognormal.rs
+++ b/src/univariate/lognormal.rs
@@ -67,9 +67,13 @@ impl Distribution for LogNormal {
 
 impl ContinuousDistribution for LogNormal {
     fn pdf(&self, x: &f64) -> f64 {
+        if *x <= 0.0 {
+            return 0.0;
+        }
+
         let ln_x = x.ln();
 
-        self.0.pdf(&ln_x)
+        self.0.pdf(&ln_x) / x
     }
 }
 
-- 
2.43.0


From 90700c87826554abf41a796d38ca481c1e2c112f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:41 +0000
Subject: [PATCH 071/203] fix: LogNormal: Sigma is the variance of ln x, not
 its standard deviation

---
 src/univariate/lognormal.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/univariate/lognormal.rs b/src/univariate/lognormal.rs
index 50c4d9a..e8ad794 100644
--- a/src/univariate/lognormal.rs
+++ b/src/univariate/lognormal.rs
@@ -18,7 +18,7 @@ pub struct LogNormal(Normal);
 
 macro_rules! get_params {
     ($self:ident) => {
-        (($self.0).0.mu.0, ($self.0).0.Sigma.0)
+        (($self.0).0.mu.0, ($self.0).0.Sigma.0.sqrt())
     };
 }
 
@@ -94,15 +94,13 @@ impl UvMoments for LogNormal {
     }
 
     fn skewness(&self) -> f64 {
-        let sigma = (self.0).0.Sigma.0;
-        let sigma2 = sigma * sigma;
+        let sigma2 = (self.0).0.Sigma.0;
 
         (sigma2.exp() + 2.0) * (sigma2.exp() - 1.0).sqrt()
     }
 
     fn excess_kurtosis(&self) -> f64 {
-        let sigma = (self.0).0.Sigma.0;
-        let sigma2 = sigma * sigma;
+        let sigma2 = (self.0).0.Sigma.0;
 
         (4.0 * sigma2).exp() + 2.0 * (3.0 * sigma2).exp() + 3.0 * (2.0 * sigma2).exp() - 6.0
     }
@@ -132,8 +130,7 @@ impl ShannonEntropy for LogNormal {
 
 impl FisherInformation<2> for LogNormal {
     fn fisher_information(&self) -> [[f64; 2]; 2] {
-        let sigma = (self.0).0.Sigma.0;
-        let one_over_sigma2 = 1.0 / sigma / sigma;
+        let one_over_sigma2 = 1.0 / (self.0).0.Sigma.0;
 
         [
             [one_over_sigma2, 0.0],
-- 
2.43.0


From 105b27b1dccbbd2bb2ee43bcc26e6e3605485921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:41 +0000
Subject: [PATCH 072/203] fix: LogNormal: the sampler takes the parameters of
 ln x

---
 src/univariate/lognormal.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/univariate/lognormal.rs b/src/univariate/lognormal.rs
index e8ad794..a75db69 100644
--- a/src/univariate/lognormal.rs
+++ b/src/univariate/lognormal.rs
@@ -59,7 +59,9 @@ impl Distribution for LogNormal {
     fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> f64 {
         use rand_distr::Distribution as _;
 
-        rand_distr::LogNormal::new(self.mean(), self.standard_deviation())
+        let (mu, sigma) = get_params!(self);
+
+        rand_distr::LogNormal::new(mu, sigma)
             .unwrap()
             .sample(rng)
     }
-- 
2.43.0


From b1de0441da584291fa78d2a9a1bd4e3f73eb1674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:41 +0000
Subject: [PATCH 073/203] fix: Pareto: cdf is 0 below the scale

---
 src/univariate/pareto.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/pareto.rs b/src/univariate/pareto.rs
index 092c01d..2b95cc4 100644
--- a/src/univariate/pareto.rs
+++ b/src/univariate/pareto.rs
@@ -46,7 +46,7 @@ impl Distribution for Pareto {
     fn cdf(&self, x: &f64) -> Probability {
         let (x_m, alpha) = get_params!(self);
 
-        Probability::new_unchecked(1.0 - (x_m / x).powf(alpha))
+        Probability::new_unchecked(1.0 - (x_m / x.max(x_m)).powf(alpha))
     }
 
     fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> f64 {
-- 
2.43.0


From 582ce6a540f665ffe1c473841113f1a2a6a425ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:41 +0000
Subject: [PATCH 074/203] fix: Rayleigh: cdf divides by sigma squared and is 0
 below the support

---
 src/univariate/rayleigh.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/univariate/rayleigh.rs b/src/univariate/rayleigh.rs
index cc10159..e9029d8 100644
--- a/src/univariate/rayleigh.rs
+++ b/src/univariate/rayleigh.rs
@@ -52,7 +52,9 @@ impl Distribution for Rayleigh {
     fn cdf(&self, x: &f64) -> Probability {
         let sigma = get_sigma!(self);
 
-        Probability::new_unchecked(1.0 - (-x * x / sigma * sigma / 2.0).exp())
+        let x = x.max(0.0);
+
+        Probability::new_unchecked(1.0 - (-x * x / sigma / sigma / 2.0).exp())
     }
 
     fn sample<R: Rng + ?Sized>(&self, _: &mut R) -> f64 { unimplemented!() }
-- 
2.43.0


From fdbf8bee21ebc81e5edc9eabb0010b770d56a5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:41 +0000
Subject: [PATCH 075/203] fix: Rayleigh: density is 0 below the support

---
 src/univariate/rayleigh.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/univariate/rayleigh.rs b/src/univariate/rayleigh.rs
index e9029d8..37cef57 100644
--- a/src/univariate/rayleigh.rs
+++ b/src/univariate/rayleigh.rs
@@ -65,6 +65,10 @@ impl ContinuousDistribution for Rayleigh {
         let sigma = get_sigma!(self);
         let sigma2 = sigma * sigma;
 
+        if *x < 0.0 {
+            return 0.0;
+        }
+
         x / sigma2 * (-x * x / sigma2 / 2.0).exp()
     }
 }
-- 
2.43.0


From 6fc04a6927669576704751bd072126ec1e1c4e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:41 +0000
Subject: [PATCH 076/203] fix: Rayleigh: excess kurtosis constant

---
 src/univariate/rayleigh.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/rayleigh.rs b/src/univariate/rayleigh.rs
index 37cef57..86ee5b5 100644
--- a/src/univariate/rayleigh.rs
+++ b/src/univariate/rayleigh.rs
@@ -15,7 +15,7 @@ const FOUR_MINUS_PI: f64 = 4.0 - PI;
 const FOUR_MINUS_PI_OVER_2: f64 = FOUR_MINUS_PI / 2.0;
 
 const EXCESS_KURTOSIS: f64 =
-    1.5 * PI2 - 6.0 * PI + 16.0 / FOUR_MINUS_PI_OVER_2 / FOUR_MINUS_PI_OVER_2;
+    -(1.5 * PI2 - 6.0 * PI + 4.0) / FOUR_MINUS_PI_OVER_2 / FOUR_MINUS_PI_OVER_2;
 const KURTOSIS: f64 = EXCESS_KURTOSIS + 3.0;
 
 pub use crate::params::Shape;
-- 
2.43.0


From f0b486dd3d21fda242a0515b78fc5d38f622bb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:41 +0000
Subject: [PATCH 077/203] fix: StudentT: cdf through the incomplete beta
 function

---
 src/univariate/student_t.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/univariate/student_t.rs b/src/univariate/student_t.rs
index 10d0d13..635be1a 100644
--- a/src/univariate/student_t.rs
+++ b/src/univariate/student_t.rs
@@ -45,12 +45,16 @@ impl Distribution for StudentT {
         use special_fun::FloatSpecial;
 
         let nu = get_nu!(self);
-        let np1o2 = (nu + 1.0) / 2.0;
-        let hyp2f1 = 0.5f64.hyp2f1(np1o2, 3.0 / 2.0, -x * x / nu);
+        let x2 = x * x;
+
+        // Probability of a value beyond |x| on one side.
+        let tail = if x2 < nu {
+            0.5 - (x2 / (nu + x2)).betainc(0.5, nu / 2.0) / 2.0
+        } else {
+            (nu / (nu + x2)).betainc(nu / 2.0, 0.5) / 2.0
+        };
 
-        Probability::new_unchecked(
-            0.5 + x * np1o2.gamma() * hyp2f1 / (nu * PI).sqrt() * (nu / 2.0).gamma(),
-        )
+        Probability::new_unchecked(if *x < 0.0 { tail } else { 1.0 - tail })
     }
 
     fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> f64 {
-- 
2.43.0


From 98b970617742454bb10c7d1e1994ebbf9ce06cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:41 +0000
Subject: [PATCH 078/203] fix: StudentT: density does not overflow for many
 degrees of freedom

---
 src/univariate/student_t.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/student_t.rs b/src/univariate/student_t.rs
index 635be1a..1f8de3b 100644
--- a/src/univariate/student_t.rs
+++ b/src/univariate/student_t.rs
@@ -72,7 +72,7 @@ impl ContinuousDistribution for StudentT {
 
         let nu = get_nu!(self);
         let np1o2 = (nu + 1.0) / 2.0;
-        let norm = np1o2.gamma() / (nu * PI).sqrt() / (nu / 2.0).gamma();
+        let norm = (np1o2.loggamma() - (nu / 2.0).loggamma()).exp() / (nu * PI).sqrt();
 
         norm * (1.0 + x * x / nu).powf(-np1o2)
     }
-- 
2.43.0


From 6a2613d4a294c490c767781f29bb9940cc64cffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:41 +0000
Subject: [PATCH 079/203] fix: StudentT: entropy formula

---
 src/univariate/student_t.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/student_t.rs b/src/univariate/student_t.rs
index 1f8de3b..a8c18fb 100644
--- a/src/univariate/student_t.rs
+++ b/src/univariate/student_t.rs
@@ -140,7 +140,7 @@ impl ShannonEntropy for StudentT {
         let no2 = nu / 2.0;
         let np1o2 = (nu + 1.0) / 2.0;
 
-        np1o2 * (np1o2.gamma() - no2.gamma()) + (nu.sqrt() * (no2.beta(0.5)))
+        np1o2 * (np1o2.digamma() - no2.digamma()) + nu.ln() / 2.0 + no2.logbeta(0.5)
     }
 }
 
-- 
2.43.0


From eec3a6a2adc638f963bb34e03a2260aa32917107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:42 +0000
Subject: [PATCH 080/203] fix: Triangular: mean is a third of the sum of the
 vertices

---
 src/univariate/triangular.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/triangular.rs b/src/univariate/triangular.rs
index 2c7b76c..53040fa 100644
--- a/src/univariate/triangular.rs
+++ b/src/univariate/triangular.rs
@@ -110,7 +110,7 @@ impl UvMoments for Triangular {
     fn mean(&self) -> f64 {
         let (a, b, c) = get_params!(self);
 
-        (a + b + c) / 2.0
+        (a + b + c) / 3.0
     }
 
     fn variance(&self) -> f64 {
-- 
2.43.0


From 049f55f79ee5b4aceda3503c77e3b9f53b9bfc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:42 +0000
Subject: [PATCH 081/203] fix: Triangular: entropy formula

---
 src/univariate/triangular.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/triangular.rs b/src/univariate/triangular.rs
index 53040fa..9871fa4 100644
--- a/src/univariate/triangular.rs
+++ b/src/univariate/triangular.rs
@@ -160,7 +160,7 @@ impl Modes for Triangular {
 }
 
 impl ShannonEntropy for Triangular {
-    fn shannon_entropy(&self) -> f64 { 1.0 + ((self.0.b() - self.0.a.0) / 2.0).ln() }
+    fn shannon_entropy(&self) -> f64 { 0.5 + ((self.0.b() - self.0.a.0) / 2.0).ln() }
 }
 
 impl fmt::Display for Triangular {
-- 
2.43.0


From c46a48242ebdf446ef47d83cb9a134fe521c9291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:42 +0000
Subject: [PATCH 082/203] fix: Uniform<i64>: quantile is the least integer
 reaching the probability

---
 src/univariate/uniform.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/uniform.rs b/src/univariate/uniform.rs
index dcdfac5..06533ac 100644
--- a/src/univariate/uniform.rs
+++ b/src/univariate/uniform.rs
@@ -288,7 +288,7 @@ impl Quantiles for Uniform<i64> {
     fn quantile(&self, p: Probability) -> f64 {
         let n = self.span() as f64;
 
-        self.params.lb.0 as f64 + (p * n).floor()
+        self.params.lb.0 as f64 + ((p * n).ceil() - 1.0).max(0.0)
     }
 
     fn median(&self) -> f64 { self.params.lb.0 as f64 + self.params.width.0 as f64 / 2.0 }
-- 
2.43.0


From ef5c68684c1b3b33b1ff3a973d24d821cdca7111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:42 +0000
Subject: [PATCH 083/203] fix: Weibull: density does not overflow at large
 arguments

---
 src/univariate/weibull.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/univariate/weibull.rs b/src/univariate/weibull.rs
index 46e91ac..a13cbc9 100644
--- a/src/univariate/weibull.rs
+++ b/src/univariate/weibull.rs
@@ -69,7 +69,9 @@ impl ContinuousDistribution for Weibull {
             let (lambda, k) = get_params!(self);
             let xol = x / lambda;
 
-            k / lambda * xol.powf(k - 1.0) * (-xol.powf(k)).exp()
+            let log_pow = if k == 1.0 { 0.0 } else { (k - 1.0) * xol.ln() };
+
+            k / lambda * (log_pow - xol.powf(k)).exp()
         } else {
             0.0
         }
-- 
2.43.0


From 570c0b6f6dd207d397972df3edfc749a357e347e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:42 +0000
Subject: [PATCH 084/203] fix: Weibull: the mode is 0 for shapes up to 1, not
 for every shape

---
 src/univariate/weibull.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/weibull.rs b/src/univariate/weibull.rs
index a13cbc9..74561ed 100644
--- a/src/univariate/weibull.rs
+++ b/src/univariate/weibull.rs
@@ -154,7 +154,7 @@ impl Modes for Weibull {
     fn modes(&self) -> Vec<f64> {
         let k = self.0.k.0;
 
-        vec![if k > 0.0 {
+        vec![if k <= 1.0 {
             0.0
         } else {
             self.0.lambda.0 * ((k - 1.0) / k).powf(1.0 / k)
-- 
2.43.0


From d912e1125f927bd1acaa2132fc6347cb9e0c7fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:42 +0000
Subject: [PATCH 085/203] fix: UvNormal: kurtosis is 3 and excess kurtosis 0

---
 src/normal/univariate.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/normal/univariate.rs b/src/normal/univariate.rs
index 7caad74..f4f63e9 100644
--- a/src/normal/univariate.rs
+++ b/src/normal/univariate.rs
@@ -131,9 +131,9 @@ impl UvMoments for UvNormal {
 
     fn skewness(&self) -> f64 { 0.0 }
 
-    fn kurtosis(&self) -> f64 { 0.0 }
+    fn kurtosis(&self) -> f64 { 3.0 }
 
-    fn excess_kurtosis(&self) -> f64 { -3.0 }
+    fn excess_kurtosis(&self) -> f64 { 0.0 }
 }
 
 impl Quantiles for UvNormal {
-- 
2.43.0


From 8a8df0f86ade077486ce699bfd5ee87aeb709bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:42 +0000
Subject: [PATCH 086/203] fix: UvNormal: log-likelihood normalisation

---
 src/normal/univariate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/normal/univariate.rs b/src/normal/univariate.rs
index f4f63e9..96f56bb 100644
--- a/src/normal/univariate.rs
+++ b/src/normal/univariate.rs
@@ -174,7 +174,7 @@ impl Likelihood for UvNormal {
         let ls2 = Sigma.ln();
         let no2 = (samples.len() as f64) / 2.0;
 
-        -no2 / 2.0 * (PI_2.ln() + ls2)
+        -no2 * (PI_2.ln() + ls2)
             - samples
                 .into_iter()
                 .map(|x| (*x - mu).powi(2) / 2.0 / Sigma)
-- 
2.43.0


From f721e2e5e65577f0e76d6ff1b9b87b8ca0bff840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:42 +0000
Subject: [PATCH 087/203] fix: UvNormal: score with respect to the variance

---
 src/normal/univariate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/normal/univariate.rs b/src/normal/univariate.rs
index 96f56bb..642961e 100644
--- a/src/normal/univariate.rs
+++ b/src/normal/univariate.rs
@@ -197,7 +197,7 @@ impl Score for UvNormal {
 
         Grad {
             mu: sum / Sigma,
-            Sigma: (sum_sq / Sigma - n) / Sigma.sqrt(),
+            Sigma: (sum_sq / Sigma - n) / Sigma / 2.0,
         }
     }
 }
-- 
2.43.0


From 497d54b4a266848b31f62eb445c67f0e300fcaa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:46 +0000
Subject: [PATCH 088/203] fix: Bernoulli: cdf at false is the probability of
 false

---
 src/univariate/bernoulli.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/bernoulli.rs b/src/univariate/bernoulli.rs
index fffb0e8..52a880b 100644
--- a/src/univariate/bernoulli.rs
+++ b/src/univariate/bernoulli.rs
@@ -65,7 +65,7 @@ impl Distribution for Bernoulli {
         if *k {
             Probability::one()
         } else {
-            Probability::zero()
+            self.q
         }
     }
 
-- 
2.43.0


From 7951a1bf424e65003c0e05020690ac4f80e7c458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:46 +0000
Subject: [PATCH 089/203] fix: Bernoulli: kurtosis and excess kurtosis were off
 by 3

---
 src/univariate/bernoulli.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/univariate/bernoulli.rs b/src/univariate/bernoulli.rs
index 52a880b..0c4d44f 100644
--- a/src/univariate/bernoulli.rs
+++ b/src/univariate/bernoulli.rs
@@ -92,9 +92,9 @@ impl UvMoments for Bernoulli {
 
     fn skewness(&self) -> f64 { (1.0 - 2.0 * self.params.p.unwrap()) / self.variance.sqrt() }
 
-    fn kurtosis(&self) -> f64 { 1.0 / self.variance - 6.0 }
+    fn kurtosis(&self) -> f64 { 1.0 / self.variance - 3.0 }
 
-    fn excess_kurtosis(&self) -> f64 { 1.0 / self.variance - 9.0 }
+    fn excess_kurtosis(&self) -> f64 { 1.0 / self.variance - 6.0 }
 }
 
 impl Quantiles for Bernoulli {
-- 
2.43.0


From 3da829f8d2a03f3a4e1601a49b32a21861c4d003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:46 +0000
Subject: [PATCH 090/203] fix: Bernoulli: the mode is true when that is more
 likely

---
 src/univariate/bernoulli.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/bernoulli.rs b/src/univariate/bernoulli.rs
index 0c4d44f..16c20b8 100644
--- a/src/univariate/bernoulli.rs
+++ b/src/univariate/bernoulli.rs
@@ -116,7 +116,7 @@ impl Modes for Bernoulli {
         match self.params.p.partial_cmp(&self.q) {
             Some(Less) => vec![false],
             Some(Equal) => vec![false, true],
-            Some(Greater) => vec![false],
+            Some(Greater) => vec![true],
             None => unreachable!(),
         }
     }
-- 
2.43.0


From 274f0cd771a3afebf6dfe5e4493ab4776091ab37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:46 +0000
Subject: [PATCH 091/203] fix: Bernoulli: failures lower the score

---
 src/univariate/bernoulli.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/univariate/bernoulli.rs b/src/univariate/bernoulli.rs
index 16c20b8..677204d 100644
--- a/src/univariate/bernoulli.rs
+++ b/src/univariate/bernoulli.rs
@@ -150,7 +150,10 @@ impl Score for Bernoulli {
 
     fn score(&self, samples: &[bool]) -> Grad {
         Grad {
-            p: samples.into_iter().map(|x| 1.0 / self.pmf(x)).sum(),
+            p: samples
+                .into_iter()
+                .map(|x| if *x { 1.0 / self.pmf(x) } else { -1.0 / self.pmf(x) })
+                .sum(),
         }
     }
 }
-- 
2.43.0


From 44a3040649ad18d21849b5f71fde9d9babf999f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:46 +0000
Subject: [PATCH 092/203] fix: BetaBinomial: the support ends at n

---
 src/univariate/beta_binomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/beta_binomial.rs b/src/univariate/beta_binomial.rs
index 224f163..05ce62d 100644
--- a/src/univariate/beta_binomial.rs
+++ b/src/univariate/beta_binomial.rs
@@ -71,7 +71,7 @@ impl Distribution for BetaBinomial {
     type Support = Closed<usize>;
     type Params = Params;
 
-    fn support(&self) -> Closed<usize> { Closed::closed_unchecked(0, self.params.n.0 + 1) }
+    fn support(&self) -> Closed<usize> { Closed::closed_unchecked(0, self.params.n.0) }
 
     fn params(&self) -> Params { self.params }
 
-- 
2.43.0


From 86b7bc9ee9ba716789846d113d6a4f9636846563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:46 +0000
Subject: [PATCH 093/203] fix: BetaBinomial: skewness formula

---
 src/univariate/beta_binomial.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/univariate/beta_binomial.rs b/src/univariate/beta_binomial.rs
index 05ce62d..28ee21a 100644
--- a/src/univariate/beta_binomial.rs
+++ b/src/univariate/beta_binomial.rs
@@ -105,13 +105,10 @@ impl UvMoments for BetaBinomial {
         let (n, alpha, beta) = get_params!(self);
         let n = n as f64;
 
-        let ap1 = alpha + 1.0;
-        let ap2 = ap1 + 1.0;
-
-        // Compute bracket term:
-        let b = n * n * ap1 * ap2 + 3.0 * n * ap1 * beta + beta * (beta - alpha);
+        let apb = alpha + beta;
+        let s = ((1.0 + apb) / (n * alpha * beta * (n + apb))).sqrt();
 
-        self.pi * self.rho * n * b / (ap2 + beta)
+        (apb + 2.0 * n) * (beta - alpha) / (apb + 2.0) * s
     }
 
     fn kurtosis(&self) -> f64 {
-- 
2.43.0


From a705e607103eed965190a5f41a1e5e3278bcbdf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:46 +0000
Subject: [PATCH 094/203] fix: BetaBinomial: kurtosis formula

---
 src/univariate/beta_binomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/beta_binomial.rs b/src/univariate/beta_binomial.rs
index 28ee21a..8c62d57 100644
--- a/src/univariate/beta_binomial.rs
+++ b/src/univariate/beta_binomial.rs
@@ -119,7 +119,7 @@ impl UvMoments for BetaBinomial {
 
         let b1 = alpha
             / (n * self.pi * self.pi * self.rho * beta * (apb + 2.0) * (apb + 3.0) * (apb + n));
-        let b2 = (apb - 1.0 + 6.0 * n) / alpha;
+        let b2 = (apb - 1.0 + 6.0 * n) * apb;
         let b3 = 3.0 * alpha * beta * (n - 2.0);
         let b4 = 6.0 * n * n;
         let b5 = -3.0 * self.pi * beta * n * (6.0 - n);
-- 
2.43.0


From 28300e80f92b9f062949c4ef4bb39c1a69a5e5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:46 +0000
Subject: [PATCH 095/203] fix: Binomial: the support ends at n

---
 src/univariate/binomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/binomial.rs b/src/univariate/binomial.rs
index 8e19d6c..9dc2a7c 100644
--- a/src/univariate/binomial.rs
+++ b/src/univariate/binomial.rs
@@ -59,7 +59,7 @@ impl Distribution for Binomial {
     type Support = Closed<usize>;
     type Params = Params;
 
-    fn support(&self) -> Closed<usize> { Closed::closed_unchecked(0, self.params.n.0 + 1) }
+    fn support(&self) -> Closed<usize> { Closed::closed_unchecked(0, self.params.n.0) }
 
     fn params(&self) -> Params { self.params }
 
-- 
2.43.0


From 5d1bd0ebc68d70d8530e65aef85a43bd5b3befd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:46 +0000
Subject: [PATCH 096/203] fix: Binomial: cdf is 1 from n on

---
 src/univariate/binomial.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/univariate/binomial.rs b/src/univariate/binomial.rs
index 9dc2a7c..f0e3147 100644
--- a/src/univariate/binomial.rs
+++ b/src/univariate/binomial.rs
@@ -66,6 +66,10 @@ impl Distribution for Binomial {
     fn cdf(&self, k: &usize) -> Probability {
         use special_fun::FloatSpecial;
 
+        if *k >= self.params.n.0 {
+            return Probability::one();
+        }
+
         let a = (self.params.n.0 - k) as f64;
         let b = (k + 1) as f64;
 
-- 
2.43.0


From 3aef562ea0fa55e4a6313cd7d29134ba942f0304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:46 +0000
Subject: [PATCH 097/203] fix: Binomial: the excess kurtosis was reported as
 the kurtosis

---
 src/univariate/binomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/binomial.rs b/src/univariate/binomial.rs
index f0e3147..be10dd7 100644
--- a/src/univariate/binomial.rs
+++ b/src/univariate/binomial.rs
@@ -118,7 +118,7 @@ impl UvMoments for Binomial {
 
     fn skewness(&self) -> f64 { (1.0 - self.params.p * 2.0) / self.variance().sqrt() }
 
-    fn kurtosis(&self) -> f64 {
+    fn excess_kurtosis(&self) -> f64 {
         let (n, p) = get_params!(self);
         let (p, q) = (p.unwrap(), self.q.unwrap());
 
-- 
2.43.0


From 3f2252c6c72d84a6392b23a63766f3f17a42a920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:46 +0000
Subject: [PATCH 098/203] fix: Binomial: median lies on the right side of the
 mean

---
 src/univariate/binomial.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/univariate/binomial.rs b/src/univariate/binomial.rs
index be10dd7..3f94a2f 100644
--- a/src/univariate/binomial.rs
+++ b/src/univariate/binomial.rs
@@ -129,7 +129,16 @@ impl UvMoments for Binomial {
 impl Quantiles for Binomial {
     fn quantile(&self, _: Probability) -> f64 { unimplemented!() }
 
-    fn median(&self) -> f64 { self.mean().round() }
+    fn median(&self) -> f64 {
+        // The median is one of the two integers around the mean.
+        let m = self.mean().floor();
+
+        if self.cdf(&(m as usize)).unwrap() >= 0.5 {
+            m
+        } else {
+            m + 1.0
+        }
+    }
 }
 
 impl Modes for Binomial {
-- 
2.43.0


From 45fa829f76260534b5667abc60003bbdb20e244e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:46 +0000
Subject: [PATCH 099/203] fix: Binomial: modes are those of the (n + 1) p rule

---
 src/univariate/binomial.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/univariate/binomial.rs b/src/univariate/binomial.rs
index 3f94a2f..9eb7a6b 100644
--- a/src/univariate/binomial.rs
+++ b/src/univariate/binomial.rs
@@ -145,7 +145,14 @@ impl Modes for Binomial {
     fn modes(&self) -> Vec<usize> {
         let (n, p) = get_params!(self);
 
-        vec![(p * n as f64).floor() as usize]
+        let m = p * (n + 1) as f64;
+        let k = (m.floor() as usize).min(n);
+
+        if k > 0 && m == k as f64 {
+            vec![k - 1, k]
+        } else {
+            vec![k]
+        }
     }
 }
 
-- 
2.43.0


From c3fe232976483be9a9d0ab0ace0d952826e54df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:55 +0000
Subject: [PATCH 100/203] fix: Binomial: pmf is 0 above n and does not overflow
 for large n

---
 src/univariate/binomial.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/univariate/binomial.rs b/src/univariate/binomial.rs
index 9eb7a6b..6c06ed6 100644
--- a/src/univariate/binomial.rs
+++ b/src/univariate/binomial.rs
@@ -90,6 +90,22 @@ impl DiscreteDistribution for Binomial {
     fn pmf(&self, k: &usize) -> Probability {
         let (n, p) = get_params!(self);
 
+        if *k > n {
+            return Probability::zero();
+        }
+
+        // Beyond this the binomial coefficient may not fit in 64 bits.
+        if n > 60 {
+            let m = n - *k;
+            let log_successes = if *k == 0 { 0.0 } else { *k as f64 * p.ln() };
+            let log_failures = if m == 0 { 0.0 } else { m as f64 * self.q.ln() };
+            let log_bc = log_factorial_stirling(n as u64)
+                - log_factorial_stirling(*k as u64)
+                - log_factorial_stirling(m as u64);
+
+            return Probability::new_unchecked((log_bc + log_successes + log_failures).exp());
+        }
+
         let bc = choose(n as u64, *k as u64) as f64;
 
         let prob_successes = p.powi(*k as i32);
-- 
2.43.0


From 8db8756e26101fb4050c9d13ff9ddb52fdb1c682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:55 +0000
Subject: [PATCH 101/203] fix: Categorical: the support ends at N - 1

---
 src/univariate/categorical.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/categorical.rs b/src/univariate/categorical.rs
index 5ee79bf..d951be7 100644
--- a/src/univariate/categorical.rs
+++ b/src/univariate/categorical.rs
@@ -50,7 +50,7 @@ impl<const N: usize> Distribution for Categorical<N> {
     type Support = Closed<usize>;
     type Params = Params<N>;
 
-    fn support(&self) -> Closed<usize> { Closed::closed_unchecked(0, N + 1) }
+    fn support(&self) -> Closed<usize> { Closed::closed_unchecked(0, N - 1) }
 
     fn params(&self) -> Params<N> { self.0.clone() }
 
-- 
2.43.0


From 1e819bba20e0584078e942ac65decc59ba5b6e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:55 +0000
Subject: [PATCH 102/203] fix: Categorical: cdf includes its argument

---
 src/univariate/categorical.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/categorical.rs b/src/univariate/categorical.rs
index d951be7..ad84c8d 100644
--- a/src/univariate/categorical.rs
+++ b/src/univariate/categorical.rs
@@ -55,7 +55,7 @@ impl<const N: usize> Distribution for Categorical<N> {
     fn params(&self) -> Params<N> { self.0.clone() }
 
     fn cdf(&self, x: &usize) -> Probability {
-        Probability::new_unchecked(self.0.ps.iter().take(*x).sum())
+        Probability::new_unchecked(self.0.ps.iter().take(x.saturating_add(1)).sum::<f64>().min(1.0))
     }
 
     fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> usize { self.0.ps.sample_index(rng) }
-- 
2.43.0


From b264a23fee91231a1c78db1af79b7c028cb80ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:55 +0000
Subject: [PATCH 103/203] fix: Geometric: cdf for counts beyond 32 bits

---
 src/univariate/geometric.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/geometric.rs b/src/univariate/geometric.rs
index 4210129..d90a570 100644
--- a/src/univariate/geometric.rs
+++ b/src/univariate/geometric.rs
@@ -47,7 +47,7 @@ impl Distribution for Geometric {
     fn params(&self) -> Params { self.params }
 
     fn cdf(&self, k: &u64) -> Probability {
-        Probability::new_unchecked(1.0 - self.q.powi(*k as i32 + 1))
+        Probability::new_unchecked(1.0 - self.q.powf(*k as f64 + 1.0))
     }
 
     fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> u64 {
-- 
2.43.0


From 7df0d6198311b50ee14a7c6da76971c42631b0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:55 +0000
Subject: [PATCH 104/203] fix: Geometric: pmf for counts beyond 32 bits

---
 src/univariate/geometric.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/geometric.rs b/src/univariate/geometric.rs
index d90a570..78f0cfc 100644
--- a/src/univariate/geometric.rs
+++ b/src/univariate/geometric.rs
@@ -61,7 +61,7 @@ impl Distribution for Geometric {
 
 impl DiscreteDistribution for Geometric {
     fn pmf(&self, k: &u64) -> Probability {
-        Probability::new_unchecked(self.params.p * self.q.powi(*k as i32))
+        Probability::new_unchecked(self.params.p * self.q.powf(*k as f64))
     }
 }
 
-- 
2.43.0


From 768544e3da9175f1f55400f1a8f4c605c6528862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:55 +0000
Subject: [PATCH 105/203] fix: Geometric: median is a whole number of failures

---
 src/univariate/geometric.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/geometric.rs b/src/univariate/geometric.rs
index 78f0cfc..8d6d6a0 100644
--- a/src/univariate/geometric.rs
+++ b/src/univariate/geometric.rs
@@ -88,7 +88,7 @@ impl UvMoments for Geometric {
 impl Quantiles for Geometric {
     fn quantile(&self, _: Probability) -> f64 { unimplemented!() }
 
-    fn median(&self) -> f64 { (-1.0 / self.q.log2()) - 1.0 }
+    fn median(&self) -> f64 { (-1.0 / self.q.log2()).ceil() - 1.0 }
 }
 
 impl Modes for Geometric {
-- 
2.43.0


From 3b562406d20f372f3439528a325b46629813ff08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:55 +0000
Subject: [PATCH 106/203] fix: Poisson: the excess kurtosis was reported as the
 kurtosis

---
 src/univariate/poisson.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/poisson.rs b/src/univariate/poisson.rs
index 892da4b..4cb4072 100644
--- a/src/univariate/poisson.rs
+++ b/src/univariate/poisson.rs
@@ -78,7 +78,7 @@ impl UvMoments for Poisson {
 
     fn skewness(&self) -> f64 { get_lambda!(self).powf(-ONE_HALF) }
 
-    fn kurtosis(&self) -> f64 { 1.0 / get_lambda!(self) }
+    fn excess_kurtosis(&self) -> f64 { 1.0 / get_lambda!(self) }
 }
 
 impl Quantiles for Poisson {
-- 
2.43.0


From f5b678d9e790e518e99449a3abec01a0cad56fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:55 +0000
Subject: [PATCH 107/203] fix: Poisson: median is not negative

---
 src/univariate/poisson.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/poisson.rs b/src/univariate/poisson.rs
index 4cb4072..73a4a28 100644
--- a/src/univariate/poisson.rs
+++ b/src/univariate/poisson.rs
@@ -87,7 +87,7 @@ impl Quantiles for Poisson {
     fn median(&self) -> f64 {
         let l = get_lambda!(self);
 
-        (l + ONE_THIRD - 0.02 / l).floor()
+        (l + ONE_THIRD - 0.02 / l).floor().max(0.0)
     }
 }
 
-- 
2.43.0


From 9e5a2b512a84d32a026b8dcc06a7b3c78a61f3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:55 +0000
Subject: [PATCH 108/203] fix: Poisson: a whole rate has two modes

---
 src/univariate/poisson.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/univariate/poisson.rs b/src/univariate/poisson.rs
index 73a4a28..9f9728d 100644
--- a/src/univariate/poisson.rs
+++ b/src/univariate/poisson.rs
@@ -92,7 +92,16 @@ impl Quantiles for Poisson {
 }
 
 impl Modes for Poisson {
-    fn modes(&self) -> Vec<u64> { vec![get_lambda!(self).floor() as u64] }
+    fn modes(&self) -> Vec<u64> {
+        let l = get_lambda!(self);
+        let k = l.floor() as u64;
+
+        if k > 0 && k as f64 == l {
+            vec![k - 1, k]
+        } else {
+            vec![k]
+        }
+    }
 }
 
 impl ShannonEntropy for Poisson {
-- 
2.43.0


From 76c714e0e4c570159917b11e9e0dc34536cb7e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:55 +0000
Subject: [PATCH 109/203] fix: Poisson: Fisher information is 1 / lambda

---
 src/univariate/poisson.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/poisson.rs b/src/univariate/poisson.rs
index 9f9728d..18d1d37 100644
--- a/src/univariate/poisson.rs
+++ b/src/univariate/poisson.rs
@@ -116,7 +116,7 @@ impl ShannonEntropy for Poisson {
 }
 
 impl FisherInformation<1> for Poisson {
-    fn fisher_information(&self) -> [[f64; 1]; 1] { [[get_lambda!(self)]] }
+    fn fisher_information(&self) -> [[f64; 1]; 1] { [[1.0 / get_lambda!(self)]] }
 }
 
 impl Likelihood for Poisson {
-- 
2.43.0


From ccddd2033b93d5ea1ed702f6e18653c22a614fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:55 +0000
Subject: [PATCH 110/203] fix: Poisson: score with respect to the rate

---
 src/univariate/poisson.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/poisson.rs b/src/univariate/poisson.rs
index 18d1d37..46f3618 100644
--- a/src/univariate/poisson.rs
+++ b/src/univariate/poisson.rs
@@ -141,7 +141,7 @@ impl Score for Poisson {
         let l = get_lambda!(self);
 
         Grad {
-            lambda: n + samples.into_iter().sum::<u64>() as f64 / l,
+            lambda: -n + samples.into_iter().sum::<u64>() as f64 / l,
         }
     }
 }
-- 
2.43.0


From 9941d403522386e7ab0e73681263637778bf5ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:55 +0000
Subject: [PATCH 111/203] fix: BetaBinomial: pmf is 0 above n and does not
 overflow for large n

---
 src/univariate/beta_binomial.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/univariate/beta_binomial.rs b/src/univariate/beta_binomial.rs
index 8c62d57..7258661 100644
--- a/src/univariate/beta_binomial.rs
+++ b/src/univariate/beta_binomial.rs
@@ -48,11 +48,16 @@ impl BetaBinomial {
     fn pmf_raw(&self, k: usize) -> f64 {
         let (n, alpha, beta) = get_params!(self);
 
-        let c = choose(n as u64, k as u64) as f64;
-        let z = alpha.beta(beta);
-        let k = k as f64;
+        if k > n {
+            return 0.0;
+        }
+
+        let log_c = log_factorial_stirling(n as u64)
+            - log_factorial_stirling(k as u64)
+            - log_factorial_stirling((n - k) as u64);
+        let (n, k) = (n as f64, k as f64);
 
-        c * (k + alpha).beta(n as f64 - k + beta) / z
+        (log_c + (k + alpha).logbeta(n - k + beta) - alpha.logbeta(beta)).exp()
     }
 }
 
-- 
2.43.0


From 9bca6ff1ef6a454983b700c716fcb0780a62169f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:30 +0000
Subject: [PATCH 112/203] fix: InvNormal: entropy formula

---
 src/univariate/inverse_normal.rs | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/univariate/inverse_normal.rs b/src/univariate/inverse_normal.rs
index 677a9d6..129f1e2 100644
--- a/src/univariate/inverse_normal.rs
+++ b/src/univariate/inverse_normal.rs
@@ -21,6 +21,32 @@ params! {
     }
 }
 
+/// The exponential integral E1, multiplied by `z.exp()`.
+fn scaled_exp_int(z: f64) -> f64 {
+    use special_fun::FloatSpecial;
+
+    if z <= 1.0 {
+        // E1(z) = -gamma - ln(z) - sum_k (-z)^k / (k k!)
+        let (mut sum, mut term) = (1.0f64.digamma() - z.ln(), 1.0);
+
+        for k in 1..30 {
+            term *= -z / k as f64;
+            sum -= term / k as f64;
+        }
+
+        sum * z.exp()
+    } else {
+        // Continued fraction, evaluated from the far end.
+        (1..200).rev().fold(0.0, |acc, k| {
+            let k = k as f64;
+
+            k * k / (z + 2.0 * k + 1.0 - acc)
+        })
+        .mul_add(-1.0, z + 1.0)
+        .recip()
+    }
+}
+
 pub type InvGaussian = InvNormal;
 
 #[derive(Debug, Clone, Copy)]
@@ -157,7 +183,11 @@ impl Modes for InvNormal {
 }
 
 impl ShannonEntropy for InvNormal {
-    fn shannon_entropy(&self) -> f64 { (PI_E_2 * self.variance()).ln() / 2.0 }
+    fn shannon_entropy(&self) -> f64 {
+        let (mu, lambda) = get_params!(self);
+
+        (PI_E_2 * self.variance()).ln() / 2.0 - 1.5 * scaled_exp_int(2.0 * lambda / mu)
+    }
 }
 
 impl fmt::Display for InvNormal {
-- 
2.43.0


From bcd675cdd85265111da281b81ca78aa44026ef46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:27 +0000
Subject: [PATCH 113/203] fix: Cosine: cdf does not round below 0

---
 src/univariate/cosine.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/univariate/cosine.rs b/src/univariate/cosine.rs
index 56a3e6c..cca3103 100644
--- a/src/univariate/cosine.rs
+++ b/src/univariate/cosine.rs
@@ -58,8 +58,9 @@ impl Distribution for Cosine {
 
     fn cdf(&self, x: &f64) -> Probability {
         let z = self.z(*x).max(-1.0).min(1.0);
+        let p = 0.5 * (1.0 + z + ONE_OVER_PI * (z * PI).sin());
 
-        Probability::new_unchecked(0.5 * (1.0 + z + ONE_OVER_PI * (z * PI).sin()))
+        Probability::new_unchecked(p.max(0.0).min(1.0))
     }
 
     fn sample<R: Rng + ?Sized>(&self, _: &mut R) -> f64 { unimplemented!() }
-- 
2.43.0


From 7949bf05c1938dbcdea3c6a1b0fd31b6251ceaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:27 +0000
Subject: [PATCH 114/203] fix: FoldedNormal: cdf is exactly 0 below the support

---
 src/univariate/folded_normal.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/univariate/folded_normal.rs b/src/univariate/folded_normal.rs
index f36617a..fdaf24a 100644
--- a/src/univariate/folded_normal.rs
+++ b/src/univariate/folded_normal.rs
@@ -66,7 +66,10 @@ impl Distribution for FoldedNormal {
 
         let (mu, sigma) = get_params!(self);
         let sqrt_2: f64 = 2.0f64.sqrt();
-        let x = x.max(0.0);
+
+        if *x <= 0.0 {
+            return Probability::zero();
+        }
 
         Probability::new_unchecked(
             0.5 * (((x + mu) / sigma / sqrt_2).erf() + ((x - mu) / sigma / sqrt_2).erf()),
-- 
2.43.0


From cbd9f5964c3a14b6340075fe666a5564d8d4c5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:27 +0000
Subject: [PATCH 115/203] fix: UvNormal: cdf is not NaN far out in the tails

---
 src/normal/univariate.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/normal/univariate.rs b/src/normal/univariate.rs
index 642961e..ce717c0 100644
--- a/src/normal/univariate.rs
+++ b/src/normal/univariate.rs
@@ -100,7 +100,8 @@ impl Distribution for UvNormal {
                     1.0
                 }
             },
-            _ => self.z(*x).norm(),
+            // The approximation overflows for huge arguments.
+            _ => self.z(*x).max(-40.0).min(40.0).norm(),
         })
     }
 
-- 
2.43.0


From 2f3e5e16580f39752396446499c939e362b81fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:39 +0000
Subject: [PATCH 116/203] fix: FDist: cdf keeps its accuracy far in the upper
 tail

---
 src/univariate/f_dist.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/univariate/f_dist.rs b/src/univariate/f_dist.rs
index 9e0c595..213c983 100644
--- a/src/univariate/f_dist.rs
+++ b/src/univariate/f_dist.rs
@@ -53,6 +53,12 @@ impl Distribution for FDist {
             return Probability::zero();
         }
 
+        if d1 * x > d2 {
+            let y = d2 / (d1 * x + d2);
+
+            return Probability::new_unchecked(1.0 - y.betainc(d2 / 2.0, d1 / 2.0));
+        }
+
         let x = d1 * x / (d1 * x + d2);
 
         Probability::new_unchecked(x.betainc(d1 / 2.0, d2 / 2.0))
-- 
2.43.0


From bd04a7983d33a725762f013ec1a99e3f3624914b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:39 +0000
Subject: [PATCH 117/203] fix: FoldedNormal: cdf does not round below 0

---
 src/univariate/folded_normal.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/univariate/folded_normal.rs b/src/univariate/folded_normal.rs
index fdaf24a..0d272f3 100644
--- a/src/univariate/folded_normal.rs
+++ b/src/univariate/folded_normal.rs
@@ -72,7 +72,8 @@ impl Distribution for FoldedNormal {
         }
 
         Probability::new_unchecked(
-            0.5 * (((x + mu) / sigma / sqrt_2).erf() + ((x - mu) / sigma / sqrt_2).erf()),
+            (0.5 * (((x + mu) / sigma / sqrt_2).erf() + ((x - mu) / sigma / sqrt_2).erf()))
+                .max(0.0),
         )
     }
 
-- 
2.43.0


From 957616de139b9abe665e149cd728c97398ae6ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:39 +0000
Subject: [PATCH 118/203] fix: GeneralisedExtremeValue: density does not
 overflow next to the lower endpoint

---
 src/univariate/gev.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/gev.rs b/src/univariate/gev.rs
index f536bcf..d854992 100644
--- a/src/univariate/gev.rs
+++ b/src/univariate/gev.rs
@@ -76,7 +76,7 @@ impl ContinuousDistribution for GeneralisedExtremeValue {
     fn pdf(&self, x: &f64) -> f64 {
         let tx = self.t_func(*x);
 
-        if tx == INFINITY {
+        if (-tx).exp() == 0.0 {
             return 0.0;
         }
 
-- 
2.43.0


From b9b126dbbc537d12aaf7a885f7086b9a14aa8038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:36 +0000
Subject: [PATCH 119/203] fix: sample_index never returns an index of weight
 zero

---
 src/probability.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/probability.rs b/src/probability.rs
index 81c0782..663c39e 100644
--- a/src/probability.rs
+++ b/src/probability.rs
@@ -346,7 +346,11 @@ impl<const K: usize> SimplexVector<K> {
         });
         let rval: f64 = rng.gen();
 
-        cdf.position(|p| rval < p).unwrap_or(self.len() - 1)
+        // The weights may sum to slightly less than one, in which case the remainder belongs to
+        // the last index that can occur.
+        cdf.position(|p| rval < p).unwrap_or_else(|| {
+            self.0.iter().rposition(|&p| p > 0.0).unwrap_or(self.len() - 1)
+        })
     }
 
     /// Compute the central point of the simplex \\(x_i = 1 / K\\).
-- 
2.43.0


From 7e87a9ed50d6db532b10bd667e8cacd35823be9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:36 +0000
Subject: [PATCH 120/203] fix: SimplexVector::sample draws uniformly from the
 simplex

---
 src/probability.rs | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/src/probability.rs b/src/probability.rs
index 663c39e..1499a84 100644
--- a/src/probability.rs
+++ b/src/probability.rs
@@ -1,10 +1,8 @@
 use crate::{
     params::{Param, constraints::{Constraints, Interval}},
-    univariate::uniform::Uniform,
-    Distribution,
 };
 use failure::Fail;
-use rand::Rng;
+use rand::{distributions::Open01, Rng};
 use std::{
     fmt,
     iter::Sum,
@@ -378,7 +376,7 @@ impl<const K: usize> SimplexVector<K> {
     /// 1. Draw \\(K\\) independent points, \\(x_i \in [0, 1]\\), uniformly at
     /// random.
     /// 2. Apply the transformation \\(z_i = -\ln{x_i}\\).
-    /// 3. Compute the sum \\(s = \sum_i x_i\\).
+    /// 3. Compute the sum \\(s = \sum_i z_i\\).
     /// 4. Return the vector of values \\(z_i / s\\).
     ///
     /// # Examples
@@ -394,22 +392,17 @@ impl<const K: usize> SimplexVector<K> {
         let mut sum = 0.0;
         let mut probs = [0.0; K];
 
-        for i in 1..K {
-            let s = Uniform::<f64>::new_unchecked(0.0, 1.0).sample(rng);
+        for i in 0..K {
+            let x: f64 = rng.sample(Open01);
 
-            sum += s;
-            probs[i] = -s.ln();
+            probs[i] = -x.ln();
+            sum += probs[i];
         }
 
-        let mut alt = 0.0;
-
-        for i in 1..K {
+        for i in 0..K {
             probs[i] /= sum;
-            alt += probs[i];
         }
 
-        probs[0] = 1.0 - alt;
-
         SimplexVector(probs)
     }
 }
-- 
2.43.0


From 7c7236a4c70d65c680925c8aa5e5be424300cb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:38 +0000
Subject: [PATCH 121/203] fix: convolve_many accepts a list of one

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 9e42cd9..28ff269 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -297,7 +297,7 @@ pub trait Convolution<D: Distribution = Self> {
         Self: Sized,
     {
         let n = rvs.len();
-        let _ = assert_constraint!(n > 1).map_err(|e| e.with_target("n"))?;
+        let _ = assert_constraint!(n > 0).map_err(|e| e.with_target("n"))?;
 
         let new_dist = self.convolve(rvs.pop().unwrap());
 
-- 
2.43.0


From 9527577dc1fe1dc080b4a6ef6cb34c8589888f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:38 +0000
Subject: [PATCH 122/203] fix: correlation divides by the standard deviations

---
 src/statistics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/statistics.rs b/src/statistics.rs
index dca7062..a280c57 100644
--- a/src/statistics.rs
+++ b/src/statistics.rs
@@ -65,7 +65,7 @@ pub trait MvMoments<const N: usize>: Multivariate<N> {
 
         for i in 0..N {
             for j in 0..N {
-                cor[i][j] = cov[i][j] * (cov[i][i] * cov[j][j]).sqrt();
+                cor[i][j] = cov[i][j] / (cov[i][i].sqrt() * cov[j][j].sqrt());
             }
         }
 
-- 
2.43.0


From 1b5f60c03037e8bf18867ddd54e9507fd44f63ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:38 +0000
Subject: [PATCH 123/203] fix: entropy of the paired normal takes the logarithm
 of the determinant

---
 src/normal/paired.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/normal/paired.rs b/src/normal/paired.rs
index 33923f1..b3fb510 100644
--- a/src/normal/paired.rs
+++ b/src/normal/paired.rs
@@ -140,7 +140,7 @@ impl ShannonEntropy for PairedNormal {
     fn shannon_entropy(&self) -> f64 {
         let (_, Sigma) = get_params!(self);
 
-        1.0 + PI_2.ln() + 0.5 * Sigma[0] * Sigma[1]
+        1.0 + PI_2.ln() + 0.5 * (Sigma[0].ln() + Sigma[1].ln())
     }
 }
 
-- 
2.43.0


From 6231223deee52451a37cc93563d2825c1294b545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:38 +0000
Subject: [PATCH 124/203] fix: entropy of the bivariate normal takes the
 logarithm of the determinant

---
 src/normal/bivariate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/normal/bivariate.rs b/src/normal/bivariate.rs
index 9d9a20b..fab3e7d 100644
--- a/src/normal/bivariate.rs
+++ b/src/normal/bivariate.rs
@@ -171,7 +171,7 @@ impl ShannonEntropy for BvNormal {
     fn shannon_entropy(&self) -> f64 {
         let (_, [sigma2_0, sigma2_1], rho) = get_params!(self);
 
-        1.0 + PI_2.ln() + 0.5 * sigma2_0 * sigma2_1 * (1.0 - rho)
+        1.0 + PI_2.ln() + 0.5 * (sigma2_0.ln() + sigma2_1.ln() + (1.0 - rho * rho).ln())
     }
 }
 
-- 
2.43.0


From 728fbcb0ccc699d806146dc2c67ade0ddddb73a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:38 +0000
Subject: [PATCH 125/203] fix: scaling a bivariate gradient scales both
 variance terms

---
 src/normal/bivariate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/normal/bivariate.rs b/src/normal/bivariate.rs
index fab3e7d..ca9166b 100644
--- a/src/normal/bivariate.rs
+++ b/src/normal/bivariate.rs
@@ -37,7 +37,7 @@ impl std::ops::Mul<f64> for BvNormalGrad {
     fn mul(self, sf: f64) -> Self {
         Grad {
             mu: [self.mu[0] * sf, self.mu[1] * sf],
-            Sigma: ([self.Sigma.0[0] * sf, self.Sigma.0[1]], self.Sigma.1 * sf),
+            Sigma: ([self.Sigma.0[0] * sf, self.Sigma.0[1] * sf], self.Sigma.1 * sf),
         }
     }
 }
-- 
2.43.0


From 7cecddb79ac14daeded1ab9236cbe01f8bfff3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:38 +0000
Subject: [PATCH 126/203] fix: log-likelihood of the paired normal does not
 scale the quadratic term by n

---
 src/normal/paired.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/normal/paired.rs b/src/normal/paired.rs
index b3fb510..39697e3 100644
--- a/src/normal/paired.rs
+++ b/src/normal/paired.rs
@@ -148,12 +148,12 @@ impl Likelihood for PairedNormal {
     fn log_likelihood(&self, samples: &[[f64; 2]]) -> f64 {
         let (mu, [sigma2_0, sigma2_1]) = get_params!(self);
 
-        let ln_det = (sigma2_0 * sigma2_1).ln();
+        let ln_det = sigma2_0.ln() + sigma2_1.ln();
         let no2 = (samples.len() as f64) / 2.0;
 
-        -no2 * (ln_det + 2.0 * PI_2.ln() + samples.into_iter().map(|x| {
+        -no2 * (ln_det + 2.0 * PI_2.ln()) - 0.5 * samples.into_iter().map(|x| {
             (x[0] - mu[0]).powi(2) / sigma2_0 + (x[1] - mu[1]).powi(2) / sigma2_1
-        }).sum::<f64>())
+        }).sum::<f64>()
     }
 }
 
-- 
2.43.0


From efba4b2278938e8714982548b12797ce3b42d9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:38 +0000
Subject: [PATCH 127/203] fix: score of the paired normal is the gradient in
 the variances

---
 src/normal/paired.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/normal/paired.rs b/src/normal/paired.rs
index 39697e3..524bc28 100644
--- a/src/normal/paired.rs
+++ b/src/normal/paired.rs
@@ -176,8 +176,8 @@ impl Score for PairedNormal {
         Grad {
             mu: [sum[0] / sigma2_0, sum[1] / sigma2_1],
             Sigma: [
-                (sum_sq[0] / sigma2_0 - n) / sigma2_0.sqrt(),
-                (sum_sq[1] / sigma2_1 - n) / sigma2_1.sqrt()
+                (sum_sq[0] / sigma2_0 - n) / sigma2_0 / 2.0,
+                (sum_sq[1] / sigma2_1 - n) / sigma2_1 / 2.0
             ],
         }
     }
-- 
2.43.0


From c5c669dbd5288078134e83606af4ad87baef394e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:38 +0000
Subject: [PATCH 128/203] fix: Mahalanobis distance uses the whole precision
 matrix

---
 src/normal/multivariate.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/normal/multivariate.rs b/src/normal/multivariate.rs
index c4be7b6..796c01a 100644
--- a/src/normal/multivariate.rs
+++ b/src/normal/multivariate.rs
@@ -252,11 +252,13 @@ impl<const N: usize> Mahalanobis for MvNormal<N> {
 
             res
         };
-        let Az = unsafe { linalg::mv_mult(&self.precision, z.clone()) };
 
-        IntoIterator::into_iter(z)
-            .zip(IntoIterator::into_iter(Az))
-            .map(|(zi, Azi)| zi * Azi)
+        self.precision
+            .iter()
+            .zip(z.iter())
+            .map(|(row, zi)| {
+                zi * row.iter().zip(z.iter()).map(|(a, zj)| a * zj).sum::<f64>()
+            })
             .sum()
     }
 }
-- 
2.43.0


From d26b2a50e3f2de381aea644ac7f2d02be5e186df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:38 +0000
Subject: [PATCH 129/203] fix: Mahalanobis distance of the diagonal normal is
 quadratic

---
 src/normal/multivariate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/normal/multivariate.rs b/src/normal/multivariate.rs
index 796c01a..7b7b065 100644
--- a/src/normal/multivariate.rs
+++ b/src/normal/multivariate.rs
@@ -434,7 +434,7 @@ impl<const N: usize> Mahalanobis for DiagonalNormal<N> {
             .zip(self.params.mu.0.iter())
             .map(|(x, y)| x - y)
             .zip(self.precision.iter())
-            .map(|(d, si)| d * si * si)
+            .map(|(d, si)| d * d * si)
             .sum()
     }
 }
-- 
2.43.0


From 05f847be483ec5a1a0a4d1f8c8fdc88dfb835e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:38 +0000
Subject: [PATCH 130/203] fix: Mahalanobis distance of the isotropic normal is
 quadratic

---
 src/normal/multivariate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/normal/multivariate.rs b/src/normal/multivariate.rs
index 7b7b065..7f2f4f8 100644
--- a/src/normal/multivariate.rs
+++ b/src/normal/multivariate.rs
@@ -675,7 +675,7 @@ impl<const N: usize> Mahalanobis for IsotropicNormal<N> {
     fn d_mahalanobis_squared(&self, x: &[f64; N]) -> f64 {
         x.into_iter()
             .zip(self.params.mu.0.iter())
-            .map(|(x, y)| (x - y) * self.precision * self.precision)
+            .map(|(x, y)| (x - y).powi(2) * self.precision)
             .sum()
     }
 }
-- 
2.43.0


From e5be25eda00935e23720fe6642c3bf2db661b4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:38 +0000
Subject: [PATCH 131/203] fix: samples of the diagonal normal are scaled by the
 standard deviations

---
 src/normal/multivariate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/normal/multivariate.rs b/src/normal/multivariate.rs
index 7f2f4f8..6f3ef34 100644
--- a/src/normal/multivariate.rs
+++ b/src/normal/multivariate.rs
@@ -364,7 +364,7 @@ impl<const N: usize> DiagonalNormal<N> {
         };
 
         MvNormal {
-            Sigma_lt: params.Sigma.0.clone(),
+            Sigma_lt: params.Sigma.0.map(|v| v.sqrt()),
             Sigma_det: params.Sigma.0.iter().product(),
             precision: params.Sigma.0.map(|v| 1.0 / v),
             params,
-- 
2.43.0


From f0bec259459f322212e8ca834d97078fa7a62082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:39 +0000
Subject: [PATCH 132/203] fix: samples of the isotropic normal are scaled by
 the standard deviation

---
 src/normal/multivariate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/normal/multivariate.rs b/src/normal/multivariate.rs
index 6f3ef34..56cd0f7 100644
--- a/src/normal/multivariate.rs
+++ b/src/normal/multivariate.rs
@@ -537,7 +537,7 @@ impl<const N: usize> IsotropicNormal<N> {
         };
 
         MvNormal {
-            Sigma_lt: params.Sigma.0,
+            Sigma_lt: params.Sigma.0.sqrt(),
             Sigma_det: params.Sigma.0.powi(params.mu.0.len() as i32),
             precision: 1.0 / params.Sigma.0,
             params,
-- 
2.43.0


From c5f7a34fdbd2b889153c0ea4a7b3a8b665c79f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:27 +0000
Subject: [PATCH 133/203] fix: Dirichlet samples are normalised by their own
 sum

---
 src/multivariate/dirichlet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/multivariate/dirichlet.rs b/src/multivariate/dirichlet.rs
index 0fc42eb..77c9af6 100644
--- a/src/multivariate/dirichlet.rs
+++ b/src/multivariate/dirichlet.rs
@@ -69,7 +69,7 @@ impl<const N: usize> Distribution for Dirichlet<N> {
             let a = self.alphas.0[i];
             let s = rng.sample(GammaSampler::new(a, 1.0).unwrap());
 
-            sum += a;
+            sum += s;
             sample[i] = s;
         }
 
-- 
2.43.0


From 3b272f13a9c6709987436a8fe6bd93711e72100e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:27 +0000
Subject: [PATCH 134/203] fix: Dirichlet density on and beyond the boundary of
 the simplex is not NaN

---
 src/multivariate/dirichlet.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/multivariate/dirichlet.rs b/src/multivariate/dirichlet.rs
index 77c9af6..f6f1842 100644
--- a/src/multivariate/dirichlet.rs
+++ b/src/multivariate/dirichlet.rs
@@ -87,8 +87,14 @@ impl<const N: usize> ContinuousDistribution for Dirichlet<N> {
     fn log_pdf(&self, xs: &[f64; N]) -> f64 {
         assert!(xs.len() == N, "Input `xs` must have length {}.", N);
 
+        if xs.iter().any(|&x| x < 0.0) {
+            return std::f64::NEG_INFINITY;
+        }
+
+        // A factor with unit concentration is one everywhere, including at zero.
         xs.iter()
             .zip(self.alphas.0.iter())
+            .filter(|(_, &a)| a != 1.0)
             .fold(-self.ln_beta_alphas, |acc, (x, a)| acc + (a - 1.0) * x.ln())
     }
 }
-- 
2.43.0


From 3a5c08d93cb7448091a81ae47f835c379c144cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:27 +0000
Subject: [PATCH 135/203] fix: Dirichlet mode exists only without
 concentrations below one

---
 src/multivariate/dirichlet.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/multivariate/dirichlet.rs b/src/multivariate/dirichlet.rs
index f6f1842..dbc9b16 100644
--- a/src/multivariate/dirichlet.rs
+++ b/src/multivariate/dirichlet.rs
@@ -136,7 +136,15 @@ impl<const N: usize> Modes for Dirichlet<N> {
     fn modes(&self) -> Vec<[f64; N]> {
         let k = self.alphas.0.len() as f64;
 
-        vec![self.alphas.0.map(|a| (a - 1.0) / (self.alpha0 - k))]
+        if self.alphas.0.iter().any(|&a| a < 1.0) {
+            // The density is unbounded towards a face of the simplex.
+            vec![]
+        } else if self.alphas.0.iter().all(|&a| a == 1.0) {
+            // The density is constant; report the centre.
+            vec![self.alphas_normed]
+        } else {
+            vec![self.alphas.0.map(|a| (a - 1.0) / (self.alpha0 - k))]
+        }
     }
 }
 
-- 
2.43.0


From 44704c1990c4465f853a5e55535134f56ff7b0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:27 +0000
Subject: [PATCH 136/203] fix: density of the multivariate log-normal includes
 the Jacobian

---
 src/multivariate/lognormal.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/multivariate/lognormal.rs b/src/multivariate/lognormal.rs
index 2c424c5..a9e4cd5 100644
--- a/src/multivariate/lognormal.rs
+++ b/src/multivariate/lognormal.rs
@@ -95,9 +95,14 @@ where
     Normal<N, [f64; N], S>: ContinuousDistribution,
 {
     fn pdf(&self, x: &[f64; N]) -> f64 {
+        if x.iter().any(|&v| v <= 0.0) {
+            return 0.0;
+        }
+
         let log_x = x.map(|v| v.ln());
+        let log_jacobian: f64 = log_x.iter().sum();
 
-        self.0.pdf(&log_x)
+        (self.0.log_pdf(&log_x) - log_jacobian).exp()
     }
 }
 
-- 
2.43.0


From 9a4580fc40c29c94d11392d00f61c100089863e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:27 +0000
Subject: [PATCH 137/203] fix: covariance of the multivariate log-normal is
 computed from the unmodified covariance of its logarithm

---
 src/multivariate/lognormal.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/multivariate/lognormal.rs b/src/multivariate/lognormal.rs
index a9e4cd5..0c40239 100644
--- a/src/multivariate/lognormal.rs
+++ b/src/multivariate/lognormal.rs
@@ -127,14 +127,14 @@ where
     }
 
     fn covariance(&self) -> [[f64; N]; N] {
-        let mu = self.0.mean();
-        let mut cov = self.0.covariance();
+        let log_cov = self.0.covariance();
+        let mut cov = [[0.0; N]; N];
 
         macro_rules! update_index {
             ($i:ident, $j:ident) => {
                 let x = self.0.params.mu.0[$i] + self.0.params.mu.0[$j];
-                let y = (cov[$i][$i] + cov[$j][$j]) / 2.0;
-                let z = cov[$i][$j].exp() - 1.0;
+                let y = (log_cov[$i][$i] + log_cov[$j][$j]) / 2.0;
+                let z = log_cov[$i][$j].exp() - 1.0;
 
                 cov[$i][$j] = (x + y).exp() * z;
             }
-- 
2.43.0


From 11836d4bfcdaf26c211ee2190c4a8380d4fe6914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:27 +0000
Subject: [PATCH 138/203] fix: multinomial mass is positive exactly when the
 counts sum to n

---
 src/multivariate/multinomial.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/multivariate/multinomial.rs b/src/multivariate/multinomial.rs
index 901cdc4..ab445b4 100644
--- a/src/multivariate/multinomial.rs
+++ b/src/multivariate/multinomial.rs
@@ -90,10 +90,7 @@ impl<const N: usize> Distribution for Multinomial<N> {
 
 impl<const N: usize> DiscreteDistribution for Multinomial<N> {
     fn pmf(&self, xs: &[usize; N]) -> Probability {
-        match xs.iter().fold(0, |acc, x| acc + x) {
-            0 => Probability::zero(),
-            _ => Probability::new(self.log_pmf(xs).exp()).unwrap(),
-        }
+        Probability::new(self.log_pmf(xs).exp().min(1.0)).unwrap()
     }
 
     fn log_pmf(&self, xs: &[usize; N]) -> f64 {
@@ -102,8 +99,9 @@ impl<const N: usize> DiscreteDistribution for Multinomial<N> {
         #[allow(unused_parens)]
         let _ = assert_constraint!(xn == (self.0.ps.len())).unwrap();
 
-        if xs.iter().fold(0, |acc, v| acc + *v) == self.0.n.0 {
-            panic!("Total number of trials must be equal to n.")
+        // The total number of trials must be equal to n.
+        if xs.iter().fold(0, |acc, v| acc + *v) != self.0.n.0 {
+            return std::f64::NEG_INFINITY;
         }
 
         use special_fun::FloatSpecial;
-- 
2.43.0


From 103fec03c92c8cd47e811a6399805452c57efd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:27 +0000
Subject: [PATCH 139/203] fix: a mixture refuses a parameter list of the wrong
 length

---
 src/mixture.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mixture.rs b/src/mixture.rs
index 5313203..65c2c17 100644
--- a/src/mixture.rs
+++ b/src/mixture.rs
@@ -108,6 +108,11 @@ where
     <C::Support as Union<C::Support>>::Output: Closure<Output = C::Support>,
 {
     fn from(params: Params<N, C::Params>) -> Mixture<N, C> {
+        assert_eq!(
+            params.component_params.len(), N,
+            "A mixture of {} components must have as many parameter sets.", N
+        );
+
         let mut components: [std::mem::MaybeUninit<C>; N] = unsafe {
             std::mem::MaybeUninit::uninit().assume_init()
         };
-- 
2.43.0


From 589bcd0a26fa156d69a8630f2e5bd989f49a7302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:39 +0000
Subject: [PATCH 140/203] fix: a covariance matrix may have negative
 off-diagonal entries

---
 src/normal/mod.rs | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/normal/mod.rs b/src/normal/mod.rs
index fd034d9..7995c07 100644
--- a/src/normal/mod.rs
+++ b/src/normal/mod.rs
@@ -31,12 +31,13 @@ impl<const N: usize> MatrixCovariance<N> {
     /// 1. The covariance matrix is square.
     /// 2. The covariance matrix is positive semi-definite.
     pub fn matrix(Sigma: [[f64; N]; N]) -> Result<Self, failure::Error> {
-        let c = constraints::And((
-            constraints::Square,
-            constraints::All(constraints::All(constraints::NonNegative))
-        ));
+        for c in Self::constraints() {
+            if !c.is_satisfied_by(&Sigma) {
+                return Err(UCE::new(Sigma, c).with_target("Sigma").into());
+            }
+        }
 
-        Ok(Covariance(c.check(Sigma)?))
+        Ok(Covariance(Sigma))
     }
 }
 
@@ -50,11 +51,31 @@ impl<const N: usize> Param for MatrixCovariance<N> {
     fn constraints() -> Constraints<Self::Value> {
         vec![
             Box::new(constraints::Square),
-            Box::new(constraints::All(constraints::All(constraints::Positive)))
+            Box::new(constraints::All(constraints::All(
+                // Any number, but not NaN.
+                constraints::Or((constraints::Negative, constraints::NonNegative))
+            ))),
+            Box::new(NonNegativeDiagonal),
         ]
     }
 }
 
+/// Constraint on the variance terms of a dense covariance matrix.
+#[derive(Debug, Clone, Copy)]
+struct NonNegativeDiagonal;
+
+impl std::fmt::Display for NonNegativeDiagonal {
+    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
+        write!(f, "NonNegativeDiagonal")
+    }
+}
+
+impl<const N: usize> Constraint<[[f64; N]; N]> for NonNegativeDiagonal {
+    fn is_satisfied_by(&self, matrix: &[[f64; N]; N]) -> bool {
+        (0..N).all(|i| matrix[i][i] >= 0.0)
+    }
+}
+
 /// Diagonal covariance matrix parameter \\(\\mathrm{diag}(\\sigma_1^2, \\ldots, \\sigma_n^2)\\).
 pub type DiagonalCovariance<const N: usize> = Covariance<[f64; N]>;
 
-- 
2.43.0


From cd475cae5ada44828033b2d7b12211eb2133c0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:34 +0000
Subject: [PATCH 141/203] fix: Pareto Fisher information is the variance of the
 score

---
 src/univariate/pareto.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/univariate/pareto.rs b/src/univariate/pareto.rs
index 2b95cc4..3e0bee1 100644
--- a/src/univariate/pareto.rs
+++ b/src/univariate/pareto.rs
@@ -141,11 +141,9 @@ impl ShannonEntropy for Pareto {
 impl FisherInformation<2> for Pareto {
     fn fisher_information(&self) -> [[f64; 2]; 2] {
         let (x_m, alpha) = get_params!(self);
-        let off_diag = -1.0 / x_m;
-
         [
-            [alpha / x_m / x_m, off_diag],
-            [off_diag, 1.0 / alpha / alpha]
+            [alpha * alpha / x_m / x_m, 0.0],
+            [0.0, 1.0 / alpha / alpha]
         ]
     }
 }
-- 
2.43.0


From d4c4a0d61ffac599d9c4052740beeb51ebac139d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:36 +0000
Subject: [PATCH 142/203] fix: keep the distribution function of a mixture from
 rounding to above one

---
 src/mixture.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mixture.rs b/src/mixture.rs
index 65c2c17..0fb13c4 100644
--- a/src/mixture.rs
+++ b/src/mixture.rs
@@ -154,9 +154,9 @@ where
             .iter()
             .zip(self.weights.iter())
             .map(|(c, p)| p * c.cdf(x))
-            .sum();
+            .sum::<f64>();
 
-        Probability::new_unchecked(p)
+        Probability::new_unchecked(p.min(1.0))
     }
 
     fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> <Self::Support as Space>::Value {
-- 
2.43.0


From d9420638186821811247821d219710571a4a15dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:36 +0000
Subject: [PATCH 143/203] fix: leave components of weight zero out of a
 mixture's density and moments

---
 src/mixture.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mixture.rs b/src/mixture.rs
index 0fb13c4..587c2d6 100644
--- a/src/mixture.rs
+++ b/src/mixture.rs
@@ -179,6 +179,7 @@ where
         self.components
             .iter()
             .zip(self.weights.iter())
+            .filter(|(_, p)| **p != 0.0)
             .map(|(c, p)| p * c.pdf(x))
             .sum()
     }
@@ -193,6 +194,7 @@ where
         self.components
             .iter()
             .zip(self.weights.iter())
+            .filter(|(_, w)| **w != 0.0)
             .fold(0.0, |acc, (c, &w)| acc + w * c.mean())
     }
 
@@ -201,6 +203,7 @@ where
             self.components
                 .iter()
                 .zip(self.weights.iter())
+                .filter(|(_, p)| **p != 0.0)
                 .fold((0.0, 0.0), |acc, (c, &p)| {
                     let c_mean = c.mean();
                     let c_variance = c.variance();
-- 
2.43.0


From b85e0d6d5d8e4ef07e3271ffabb72798c89d58e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:36 +0000
Subject: [PATCH 144/203] fix: return an infinite mixture variance when a
 component's second moment is infinite

---
 src/mixture.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mixture.rs b/src/mixture.rs
index 587c2d6..af8d720 100644
--- a/src/mixture.rs
+++ b/src/mixture.rs
@@ -214,6 +214,10 @@ where
                     )
                 });
 
+        if var_term.is_infinite() {
+            return var_term;
+        }
+
         var_term - mean * mean
     }
 
-- 
2.43.0


From fb98e351491f63b961d758cb3fd367ba0437d365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:28 +0000
Subject: [PATCH 145/203] fix: the median of a geometric law with p = 1 is 0,
 not -1

---
 src/univariate/geometric.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/geometric.rs b/src/univariate/geometric.rs
index 8d6d6a0..23cd768 100644
--- a/src/univariate/geometric.rs
+++ b/src/univariate/geometric.rs
@@ -88,7 +88,7 @@ impl UvMoments for Geometric {
 impl Quantiles for Geometric {
     fn quantile(&self, _: Probability) -> f64 { unimplemented!() }
 
-    fn median(&self) -> f64 { (-1.0 / self.q.log2()).ceil() - 1.0 }
+    fn median(&self) -> f64 { ((-1.0 / self.q.log2()).ceil() - 1.0).max(0.0) }
 }
 
 impl Modes for Geometric {
-- 
2.43.0


From 09abe6d224c1753d3dfce5eb70db57e91c55113c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:28 +0000
Subject: [PATCH 146/203] fix: the entropy of a geometric law with p = 1 is 0,
 not NaN

---
 src/univariate/geometric.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/univariate/geometric.rs b/src/univariate/geometric.rs
index 23cd768..bccdcf5 100644
--- a/src/univariate/geometric.rs
+++ b/src/univariate/geometric.rs
@@ -99,6 +99,10 @@ impl ShannonEntropy for Geometric {
     fn shannon_entropy(&self) -> f64 {
         let (p, q) = (self.params.p.unwrap(), self.q.unwrap());
 
+        if q == 0.0 {
+            return 0.0;
+        }
+
         (-q * q.log2() - p * p.log2()) / p
     }
 }
-- 
2.43.0


From dfc7030b3c3e71bb8d4c0d52575315e3fd4851db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:28 +0000
Subject: [PATCH 147/203] fix: the Pareto density does not depend on powers of
 the scale that leave the floating-point range

---
 src/univariate/pareto.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/pareto.rs b/src/univariate/pareto.rs
index 3e0bee1..bfc2e01 100644
--- a/src/univariate/pareto.rs
+++ b/src/univariate/pareto.rs
@@ -69,7 +69,7 @@ impl ContinuousDistribution for Pareto {
         } else {
             let alpha = self.0.alpha.0;
 
-            alpha * x_m.powf(alpha) / x.powf(alpha + 1.0)
+            alpha * (x_m / x).powf(alpha) / x
         }
     }
 }
-- 
2.43.0


From 2a11340e3bf65225ef9bc6232115554835541358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:28 +0000
Subject: [PATCH 148/203] fix: the triangular density is flat only at its mode,
 whatever the width of the support

---
 src/univariate/triangular.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/triangular.rs b/src/univariate/triangular.rs
index 9871fa4..59862ab 100644
--- a/src/univariate/triangular.rs
+++ b/src/univariate/triangular.rs
@@ -93,7 +93,7 @@ impl ContinuousDistribution for Triangular {
         match *x {
             x if x <= a => 0.0,
 
-            x if (x - c).abs() < 1e-7 => 2.0 / (b - a),
+            x if x == c => 2.0 / (b - a),
 
             x if x < c => 2.0 * (x - a) / (b - a) / (c - a),
 
-- 
2.43.0


From d82b39b391a8cbd9412a0019f480c51e6754fa52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:28 +0000
Subject: [PATCH 149/203] fix: triangular variance and skewness do not lose
 their digits far from the origin

---
 src/univariate/triangular.rs | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/univariate/triangular.rs b/src/univariate/triangular.rs
index 59862ab..4c624cf 100644
--- a/src/univariate/triangular.rs
+++ b/src/univariate/triangular.rs
@@ -114,22 +114,16 @@ impl UvMoments for Triangular {
     }
 
     fn variance(&self) -> f64 {
-        let (a, b, c) = get_params!(self);
-
-        let sq_terms = a * a + b * b + c * c;
-        let cross_terms = a * b + a * c + b * c;
+        let (u, v) = (self.0.a2c.0, self.0.c2b.0);
 
-        (sq_terms - cross_terms) / 18.0
+        (u * u + u * v + v * v) / 18.0
     }
 
     fn skewness(&self) -> f64 {
-        let (a, b, c) = get_params!(self);
-
-        let sq_terms = a * a + b * b + c * c;
-        let cross_terms = a * b + a * c + b * c;
+        let (u, v) = (self.0.a2c.0, self.0.c2b.0);
 
-        let numerator = 2.0f64.sqrt() * (a + b - 2.0 * c) * (2.0 * a - b - c) * (a - 2.0 * b + c);
-        let denominator = 5.0 * (sq_terms - cross_terms).powf(THREE_HALVES);
+        let numerator = 2.0f64.sqrt() * (v - u) * (2.0 * u + v) * (u + 2.0 * v);
+        let denominator = 5.0 * (u * u + u * v + v * v).powf(THREE_HALVES);
 
         numerator / denominator
     }
-- 
2.43.0


From 80690a78a71958f982b8a6aa71a372f052e31ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:29 +0000
Subject: [PATCH 150/203] fix: densities and entropies of multivariate normals
 survive determinants outside the floating-point range

---
 src/normal/multivariate.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/normal/multivariate.rs b/src/normal/multivariate.rs
index 56cd0f7..d51a7cf 100644
--- a/src/normal/multivariate.rs
+++ b/src/normal/multivariate.rs
@@ -22,7 +22,7 @@ type Supp<const N: usize> = [Reals<f64>; N];
 pub struct MvNormal<const N: usize, M = [f64; N], S = [[f64; N]; N]> {
     pub(crate) params: Params<M, S>,
 
-    Sigma_det: f64,
+    Sigma_ln_det: f64,
     Sigma_lt: S,
     precision: S,
 }
@@ -41,7 +41,7 @@ where
     fn shannon_entropy(&self) -> f64 {
         let k = self.params.mu.len() as f64;
 
-        0.5 * (k * (1.0 + PI_2.ln()) + self.Sigma_det.ln())
+        0.5 * (k * (1.0 + PI_2.ln()) + self.Sigma_ln_det)
     }
 }
 
@@ -145,7 +145,7 @@ impl<const N: usize> MvNormal<N> {
 
         unsafe {
             let Sigma_lt = linalg::cholesky(params.Sigma.0.clone());
-            let Sigma_det = (0..N).map(|i| Sigma_lt[i][i]).product::<f64>().powi(2);
+            let Sigma_ln_det = (0..N).map(|i| 2.0 * Sigma_lt[i][i].ln()).sum();
 
             let precision = {
                 let lt_inv = linalg::inverse_lt(Sigma_lt.clone());
@@ -157,7 +157,7 @@ impl<const N: usize> MvNormal<N> {
             MvNormal {
                 params,
                 Sigma_lt,
-                Sigma_det,
+                Sigma_ln_det,
                 precision,
             }
         }
@@ -200,9 +200,9 @@ impl<const N: usize> Distribution for MvNormal<N, [f64; N], [[f64; N]; N]> {
 impl<const N: usize> ContinuousDistribution for MvNormal<N> {
     fn pdf(&self, x: &[f64; N]) -> f64 {
         let z = self.d_mahalanobis_squared(x);
-        let norm = (PI_2.powi(N as i32) * self.Sigma_det).sqrt();
+        let ln_norm = 0.5 * (N as f64 * PI_2.ln() + self.Sigma_ln_det);
 
-        (-z / 2.0).exp() / norm
+        (-z / 2.0 - ln_norm).exp()
     }
 }
 
@@ -365,7 +365,7 @@ impl<const N: usize> DiagonalNormal<N> {
 
         MvNormal {
             Sigma_lt: params.Sigma.0.map(|v| v.sqrt()),
-            Sigma_det: params.Sigma.0.iter().product(),
+            Sigma_ln_det: params.Sigma.0.iter().map(|v| v.ln()).sum(),
             precision: params.Sigma.0.map(|v| 1.0 / v),
             params,
         }
@@ -404,9 +404,9 @@ impl<const N: usize> Distribution for DiagonalNormal<N> {
 impl<const N: usize> ContinuousDistribution for DiagonalNormal<N> {
     fn pdf(&self, x: &[f64; N]) -> f64 {
         let z = self.d_mahalanobis_squared(x);
-        let norm = (PI_2.powi(self.params.mu.0.len() as i32) * self.Sigma_det).sqrt();
+        let ln_norm = 0.5 * (N as f64 * PI_2.ln() + self.Sigma_ln_det);
 
-        (-z / 2.0).exp() / norm
+        (-z / 2.0 - ln_norm).exp()
     }
 }
 
@@ -538,7 +538,7 @@ impl<const N: usize> IsotropicNormal<N> {
 
         MvNormal {
             Sigma_lt: params.Sigma.0.sqrt(),
-            Sigma_det: params.Sigma.0.powi(params.mu.0.len() as i32),
+            Sigma_ln_det: N as f64 * params.Sigma.0.ln(),
             precision: 1.0 / params.Sigma.0,
             params,
         }
@@ -645,9 +645,9 @@ impl<const N: usize> Distribution for IsotropicNormal<N> {
 impl<const N: usize> ContinuousDistribution for IsotropicNormal<N> {
     fn pdf(&self, x: &[f64; N]) -> f64 {
         let z = self.d_mahalanobis_squared(x);
-        let norm = (PI_2.powi(self.params.mu.0.len() as i32) * self.Sigma_det).sqrt();
+        let ln_norm = 0.5 * (N as f64 * PI_2.ln() + self.Sigma_ln_det);
 
-        (-z / 2.0).exp() / norm
+        (-z / 2.0 - ln_norm).exp()
     }
 }
 
-- 
2.43.0


From cf084328d7fb70efb5132f3fbb3c64313f29c4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:16 +0000
Subject: [PATCH 151/203] fix: the beta density is a number for large shapes,
 too

---
 src/univariate/beta.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/univariate/beta.rs b/src/univariate/beta.rs
index ddb51fe..aeb6251 100644
--- a/src/univariate/beta.rs
+++ b/src/univariate/beta.rs
@@ -75,10 +75,10 @@ impl ContinuousDistribution for Beta {
             return 0.0;
         }
 
-        let numerator = x.powf(a - 1.0) * (1.0 - x).powf(b - 1.0);
-        let denominator = a.beta(b);
+        let log_x = if a == 1.0 { 0.0 } else { (a - 1.0) * x.ln() };
+        let log_1mx = if b == 1.0 { 0.0 } else { (b - 1.0) * (1.0 - x).ln() };
 
-        numerator / denominator
+        (log_x + log_1mx - a.logbeta(b)).exp()
     }
 }
 
-- 
2.43.0


From 0a153c119706685c79f53f89242066883363d82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:16 +0000
Subject: [PATCH 152/203] fix: the beta prime density is a number for large
 shapes, too

---
 src/univariate/beta_prime.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/univariate/beta_prime.rs b/src/univariate/beta_prime.rs
index 5777a33..b1a0010 100644
--- a/src/univariate/beta_prime.rs
+++ b/src/univariate/beta_prime.rs
@@ -76,10 +76,9 @@ impl ContinuousDistribution for BetaPrime {
             return 0.0;
         }
 
-        let numerator = (x / (1.0 + x)).powf(a - 1.0) * (1.0 + x).powf(-1.0 - b);
-        let denominator = a.beta(b);
+        let log_x = if a == 1.0 { 0.0 } else { (a - 1.0) * (x / (1.0 + x)).ln() };
 
-        numerator / denominator
+        (log_x - (1.0 + b) * (1.0 + x).ln() - a.logbeta(b)).exp()
     }
 }
 
-- 
2.43.0


From 6c7da0aafb212b69196c35cb0bb32c4a85fe9206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:42 +0000
Subject: [PATCH 153/203] fix: the entropy of a Bernoulli law is zero only for
 a constant

---
 src/univariate/bernoulli.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/bernoulli.rs b/src/univariate/bernoulli.rs
index 677204d..30e38c4 100644
--- a/src/univariate/bernoulli.rs
+++ b/src/univariate/bernoulli.rs
@@ -127,7 +127,7 @@ impl ShannonEntropy for Bernoulli {
         let p = self.params.p.unwrap();
         let q = self.q.unwrap();
 
-        if q.abs() < 1e-7 || (q - 1.0).abs() < 1e-7 {
+        if q == 0.0 || q == 1.0 {
             0.0
         } else {
             -q * q.ln() - p * p.ln()
-- 
2.43.0


From cdaf6b2b0ec1b183ec3e9406c01bece9b4445cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:42 +0000
Subject: [PATCH 154/203] fix: generalised Pareto functions keep their digits
 for small shapes

---
 src/univariate/gpd.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/univariate/gpd.rs b/src/univariate/gpd.rs
index d378c55..a5a8157 100644
--- a/src/univariate/gpd.rs
+++ b/src/univariate/gpd.rs
@@ -51,7 +51,7 @@ impl Distribution for GeneralisedPareto {
         let (mu, sigma, zeta) = get_params!(self);
         let z = ((x - mu) / sigma).max(0.0);
 
-        Probability::new_unchecked(1.0 - (1.0 + zeta * z).powf(-1.0 / zeta))
+        Probability::new_unchecked(-(-(zeta * z).ln_1p() / zeta).exp_m1())
     }
 
     fn sample<R: Rng + ?Sized>(&self, _: &mut R) -> f64 { unimplemented!() }
@@ -66,7 +66,7 @@ impl ContinuousDistribution for GeneralisedPareto {
             return 0.0;
         }
 
-        (1.0 + zeta * z).powf(-1.0 / zeta - 1.0) / sigma
+        (-(1.0 / zeta + 1.0) * (zeta * z).ln_1p()).exp() / sigma
     }
 }
 
@@ -124,7 +124,7 @@ impl Quantiles for GeneralisedPareto {
     fn median(&self) -> f64 {
         let (mu, sigma, zeta) = get_params!(self);
 
-        mu + sigma * (2.0f64.powf(zeta) - 1.0) / zeta
+        mu + sigma * (2.0f64.ln() * zeta).exp_m1() / zeta
     }
 }
 
-- 
2.43.0


From 1d0d874a3bc9be2528f1c4cd0fb598a08fdec536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:42 +0000
Subject: [PATCH 155/203] fix: the inverse normal distribution function does
 not lose a term where the normal one underflows

---
 src/univariate/inverse_normal.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/univariate/inverse_normal.rs b/src/univariate/inverse_normal.rs
index 129f1e2..2734ac9 100644
--- a/src/univariate/inverse_normal.rs
+++ b/src/univariate/inverse_normal.rs
@@ -107,7 +107,15 @@ impl Distribution for InvNormal {
 
         let term1 = self.std_norm.cdf(&inner_term).unwrap();
         let outer_term = -lox_sqrt * (xom + 1.0);
-        let term2 = (2.0 * lambda / mu + self.std_norm.cdf(&outer_term).ln()).exp();
+        let term2 = if outer_term > -25.0 {
+            (2.0 * lambda / mu + self.std_norm.cdf(&outer_term).ln()).exp()
+        } else {
+            // Asymptotic series of the Mills ratio.
+            let r = 1.0 / outer_term / outer_term;
+            let series = 1.0 - r * (1.0 - 3.0 * r * (1.0 - 5.0 * r * (1.0 - 7.0 * r)));
+
+            (-inner_term * inner_term / 2.0).exp() * series / (-outer_term) / PI_2.sqrt()
+        };
 
         Probability::new_unchecked(term1 + term2)
     }
-- 
2.43.0


From e74cdc6033ad321e0294b50b5a89b3705227bad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:37 +0000
Subject: [PATCH 156/203] fix: the chi functions have their limits at infinity

---
 src/univariate/chi.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/univariate/chi.rs b/src/univariate/chi.rs
index 71998ca..60ce739 100644
--- a/src/univariate/chi.rs
+++ b/src/univariate/chi.rs
@@ -44,8 +44,13 @@ impl Distribution for Chi {
 
     fn cdf(&self, x: &f64) -> Probability {
         let x = x.max(0.0);
+        let x2 = x * x;
 
-        Probability::new_unchecked((x * x / 2.0).gammainc(get_k!(self) / 2.0))
+        if x2.is_infinite() {
+            return Probability::one();
+        }
+
+        Probability::new_unchecked((x2 / 2.0).gammainc(get_k!(self) / 2.0))
     }
 
     fn sample<R: Rng + ?Sized>(&self, _: &mut R) -> f64 { unimplemented!() }
@@ -57,7 +62,7 @@ impl ContinuousDistribution for Chi {
         let ko2 = k / 2.0;
         let log_norm = (ko2 - 1.0) * 2.0f64.ln() + ko2.loggamma();
 
-        if *x < 0.0 {
+        if *x < 0.0 || x.is_infinite() {
             return 0.0;
         }
 
-- 
2.43.0


From d51a7dd6c0bcc995ba1e0893e273804625e4b92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:37 +0000
Subject: [PATCH 157/203] fix: the chi-squared functions have their limits at
 infinity

---
 src/univariate/chi_sq.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/univariate/chi_sq.rs b/src/univariate/chi_sq.rs
index d17dcd7..4a3d156 100644
--- a/src/univariate/chi_sq.rs
+++ b/src/univariate/chi_sq.rs
@@ -46,6 +46,10 @@ impl Distribution for ChiSq {
         let k = get_k!(self);
         let ko2 = k / 2.0;
 
+        if *x == std::f64::INFINITY {
+            return Probability::one();
+        }
+
         Probability::new_unchecked((x.max(0.0) / 2.0).gammainc(ko2))
     }
 
@@ -64,7 +68,7 @@ impl ContinuousDistribution for ChiSq {
         let ko2 = k / 2.0;
         let log_norm = ko2 * 2.0f64.ln() + ko2.loggamma();
 
-        if *x < 0.0 {
+        if *x < 0.0 || x.is_infinite() {
             return 0.0;
         }
 
-- 
2.43.0


From d88949b20087f09b55e9b1232e1a9bc291559b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:37 +0000
Subject: [PATCH 158/203] fix: the gamma functions have their limits at
 infinity

---
 src/univariate/gamma.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/univariate/gamma.rs b/src/univariate/gamma.rs
index 31dac87..4d6047a 100644
--- a/src/univariate/gamma.rs
+++ b/src/univariate/gamma.rs
@@ -67,6 +67,10 @@ impl Distribution for Gamma {
     fn cdf(&self, x: &f64) -> Probability {
         let (a, b) = get_params!(self);
 
+        if *x == std::f64::INFINITY {
+            return Probability::one();
+        }
+
         Probability::new_unchecked((b * x.max(0.0)).gammainc(a))
     }
 
@@ -83,7 +87,7 @@ impl ContinuousDistribution for Gamma {
     fn pdf(&self, x: &f64) -> f64 {
         let (a, b) = get_params!(self);
 
-        if *x < 0.0 {
+        if *x < 0.0 || x.is_infinite() {
             return 0.0;
         }
 
-- 
2.43.0


From 3677280f9428036e1b54ab03f49712cdca04048b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:37 +0000
Subject: [PATCH 159/203] fix: the F density vanishes at infinity

---
 src/univariate/f_dist.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/f_dist.rs b/src/univariate/f_dist.rs
index 213c983..fd1319b 100644
--- a/src/univariate/f_dist.rs
+++ b/src/univariate/f_dist.rs
@@ -82,7 +82,7 @@ impl ContinuousDistribution for FDist {
         let (d1, d2) = get_params!(self);
         let (d1, d2) = (d1 as f64, d2 as f64);
 
-        if *x < 0.0 {
+        if *x < 0.0 || x.is_infinite() {
             return 0.0;
         }
 
-- 
2.43.0


From 8dadc7b73f533149bdd70502cf99151127cfed7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:37 +0000
Subject: [PATCH 160/203] fix: the Gumbel density vanishes at minus infinity

---
 src/univariate/gumbel.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/univariate/gumbel.rs b/src/univariate/gumbel.rs
index f9198c8..e32281e 100644
--- a/src/univariate/gumbel.rs
+++ b/src/univariate/gumbel.rs
@@ -66,6 +66,10 @@ impl ContinuousDistribution for Gumbel {
     fn pdf(&self, x: &f64) -> f64 {
         let z = self.z(*x);
 
+        if z == -std::f64::INFINITY {
+            return 0.0;
+        }
+
         (-z - (-z).exp()).exp() / self.0.beta.0
     }
 }
-- 
2.43.0


From 76d52cdb15ecce0ccb977fa3e09c0aacec2eae72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:37 +0000
Subject: [PATCH 161/203] fix: the Rayleigh density vanishes at infinity

---
 src/univariate/rayleigh.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/rayleigh.rs b/src/univariate/rayleigh.rs
index 86ee5b5..9ecef45 100644
--- a/src/univariate/rayleigh.rs
+++ b/src/univariate/rayleigh.rs
@@ -65,7 +65,7 @@ impl ContinuousDistribution for Rayleigh {
         let sigma = get_sigma!(self);
         let sigma2 = sigma * sigma;
 
-        if *x < 0.0 {
+        if *x < 0.0 || x.is_infinite() {
             return 0.0;
         }
 
-- 
2.43.0


From 5ef75eb90ae418d4066072221ae812e5550d54f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:37 +0000
Subject: [PATCH 162/203] fix: the Weibull density vanishes at infinity

---
 src/univariate/weibull.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/univariate/weibull.rs b/src/univariate/weibull.rs
index 74561ed..e388bbc 100644
--- a/src/univariate/weibull.rs
+++ b/src/univariate/weibull.rs
@@ -69,6 +69,10 @@ impl ContinuousDistribution for Weibull {
             let (lambda, k) = get_params!(self);
             let xol = x / lambda;
 
+            if xol.is_infinite() {
+                return 0.0;
+            }
+
             let log_pow = if k == 1.0 { 0.0 } else { (k - 1.0) * xol.ln() };
 
             k / lambda * (log_pow - xol.powf(k)).exp()
-- 
2.43.0


From 8c29ae38815abc65b5fbecae90a70f46064f94cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:37 +0000
Subject: [PATCH 163/203] fix: the inverse normal functions have their limits
 at infinity

---
 src/univariate/inverse_normal.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/univariate/inverse_normal.rs b/src/univariate/inverse_normal.rs
index 2734ac9..b0df09d 100644
--- a/src/univariate/inverse_normal.rs
+++ b/src/univariate/inverse_normal.rs
@@ -99,6 +99,8 @@ impl Distribution for InvNormal {
 
         if *x <= 0.0 {
             return Probability::zero();
+        } else if x.is_infinite() {
+            return Probability::one();
         }
 
         let xom = x / mu;
@@ -142,7 +144,7 @@ impl Distribution for InvNormal {
 impl ContinuousDistribution for InvNormal {
     fn pdf(&self, x: &f64) -> f64 {
         let (mu, lambda) = get_params!(self);
-        if *x <= 0.0 {
+        if *x <= 0.0 || x.is_infinite() {
             return 0.0;
         }
 
-- 
2.43.0


From 2957dac78d6ff98c0b964c783171377d52181fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:48 +0000
Subject: [PATCH 164/203] fix: the Erlang functions have their limits at
 infinity

---
 src/univariate/erlang.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/univariate/erlang.rs b/src/univariate/erlang.rs
index 8cb03a5..a7939e4 100644
--- a/src/univariate/erlang.rs
+++ b/src/univariate/erlang.rs
@@ -53,7 +53,13 @@ impl Distribution for Erlang {
     fn log_cdf(&self, x: &f64) -> f64 {
         let (k, lambda) = get_params!(self);
 
-        (lambda * x.max(0.0)).gammainc(k as f64).ln()
+        let z = lambda * x.max(0.0);
+
+        if z.is_infinite() {
+            return 0.0;
+        }
+
+        z.gammainc(k as f64).ln()
     }
 
     fn sample<R: Rng + ?Sized>(&self, _: &mut R) -> f64 { unimplemented!() }
@@ -63,7 +69,7 @@ impl ContinuousDistribution for Erlang {
     fn log_pdf(&self, x: &f64) -> f64 {
         let (k, lambda) = get_params!(self);
 
-        if *x < 0.0 {
+        if *x < 0.0 || x.is_infinite() {
             return -std::f64::INFINITY;
         }
 
-- 
2.43.0


From 311c8ce32118a90cbb622ea0e31c259f9db517d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:48 +0000
Subject: [PATCH 165/203] fix: the gamma distribution function is one where the
 scaled argument overflows

---
 src/univariate/gamma.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/univariate/gamma.rs b/src/univariate/gamma.rs
index 4d6047a..8d55cdd 100644
--- a/src/univariate/gamma.rs
+++ b/src/univariate/gamma.rs
@@ -67,11 +67,13 @@ impl Distribution for Gamma {
     fn cdf(&self, x: &f64) -> Probability {
         let (a, b) = get_params!(self);
 
-        if *x == std::f64::INFINITY {
+        let z = b * x.max(0.0);
+
+        if z.is_infinite() {
             return Probability::one();
         }
 
-        Probability::new_unchecked((b * x.max(0.0)).gammainc(a))
+        Probability::new_unchecked(z.gammainc(a))
     }
 
     fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> f64 {
-- 
2.43.0


From e245a8ff784552ffa6f703e4a7f68c3fc4c8d205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:35 +0000
Subject: [PATCH 166/203] fix: the inverse gamma distribution function vanishes
 where the reciprocal argument overflows

---
 src/univariate/inverse_gamma.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/univariate/inverse_gamma.rs b/src/univariate/inverse_gamma.rs
index 0a9c962..fb2d03c 100644
--- a/src/univariate/inverse_gamma.rs
+++ b/src/univariate/inverse_gamma.rs
@@ -56,7 +56,13 @@ impl Distribution for InvGamma {
             return Probability::zero();
         }
 
-        Probability::new_unchecked((beta / x).gammac(alpha))
+        let z = beta / x;
+
+        if z.is_infinite() {
+            return Probability::zero();
+        }
+
+        Probability::new_unchecked(z.gammac(alpha))
     }
 
     fn sample<R: Rng + ?Sized>(&self, _: &mut R) -> f64 { unimplemented!() }
-- 
2.43.0


From 3a4c9fa21472c5ea7f855ed5e9df782e0f67b1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:10 +0000
Subject: [PATCH 167/203] fix: the arcsine density is not negative at a
 negative zero

---
 src/univariate/arcsine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/arcsine.rs b/src/univariate/arcsine.rs
index a8b7850..9c2af2d 100644
--- a/src/univariate/arcsine.rs
+++ b/src/univariate/arcsine.rs
@@ -74,7 +74,7 @@ impl ContinuousDistribution for Arcsine {
 
         let xab = (x - a) * (b - x);
 
-        ONE_OVER_PI / xab.sqrt()
+        ONE_OVER_PI / xab.abs().sqrt()
     }
 }
 
-- 
2.43.0


From 96f3e6e7f4a672775da520ed9f5fbbb45371a92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:10 +0000
Subject: [PATCH 168/203] fix: the inverse normal density is a number for the
 smallest arguments

---
 src/univariate/inverse_normal.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/univariate/inverse_normal.rs b/src/univariate/inverse_normal.rs
index b0df09d..81aa054 100644
--- a/src/univariate/inverse_normal.rs
+++ b/src/univariate/inverse_normal.rs
@@ -148,12 +148,12 @@ impl ContinuousDistribution for InvNormal {
             return 0.0;
         }
 
-        let z = (lambda / PI_2 / x / x / x).sqrt();
+        let log_z = ((lambda / PI_2).ln() - 3.0 * x.ln()) / 2.0;
 
         let diff = x - mu;
         let exponent = (-lambda * diff * diff) / 2.0 / mu / mu / x;
 
-        z * exponent.exp()
+        (log_z + exponent).exp()
     }
 }
 
-- 
2.43.0


From 0057462e2caf955c50a3380b157ff517d3511cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:10 +0000
Subject: [PATCH 169/203] fix: the Levy density is a number for the smallest
 arguments

---
 src/univariate/levy.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/univariate/levy.rs b/src/univariate/levy.rs
index a1393ee..5c7c1b2 100644
--- a/src/univariate/levy.rs
+++ b/src/univariate/levy.rs
@@ -66,7 +66,9 @@ impl ContinuousDistribution for Levy {
         let diff = x - mu;
         let c_over_2 = c / 2.0;
 
-        (c_over_2 / PI).sqrt() * (-c_over_2 / diff).exp() / diff.powf(THREE_HALVES)
+        let log_norm = (c_over_2 / PI).ln() / 2.0;
+
+        (log_norm - c_over_2 / diff - THREE_HALVES * diff.ln()).exp()
     }
 }
 
-- 
2.43.0


From 501af4ade48f7ea0c950160500f0ea35e72ed6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:10 +0000
Subject: [PATCH 170/203] fix: the Rayleigh density is a number for the largest
 arguments

---
 src/univariate/rayleigh.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/rayleigh.rs b/src/univariate/rayleigh.rs
index 9ecef45..95717c5 100644
--- a/src/univariate/rayleigh.rs
+++ b/src/univariate/rayleigh.rs
@@ -69,7 +69,7 @@ impl ContinuousDistribution for Rayleigh {
             return 0.0;
         }
 
-        x / sigma2 * (-x * x / sigma2 / 2.0).exp()
+        (-x * x / sigma2 / 2.0).exp() * x / sigma2
     }
 }
 
-- 
2.43.0


From 072169930bcabd87b068091d7181f382529375cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:11 +0000
Subject: [PATCH 171/203] fix: Frechet samples never leave the support at the
 ends of the uniform draw

---
 src/univariate/frechet.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/univariate/frechet.rs b/src/univariate/frechet.rs
index 6b12f88..6fb64c6 100644
--- a/src/univariate/frechet.rs
+++ b/src/univariate/frechet.rs
@@ -1,6 +1,5 @@
 use crate::{
     statistics::{Modes, Quantiles, ShannonEntropy, UvMoments},
-    univariate::uniform::Uniform,
     ContinuousDistribution,
     Distribution,
     Probability,
@@ -53,9 +52,9 @@ impl Distribution for Frechet {
     }
 
     fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> f64 {
-        let u = Uniform::default();
+        let u: f64 = rng.sample(rand::distributions::Open01);
 
-        (-u.sample(rng).ln()).powf(-1.0 / get_alpha!(self))
+        (-u.ln()).powf(-1.0 / get_alpha!(self))
     }
 }
 
-- 
2.43.0


From 5597c727f6f1c096b987482fe816edbf27873732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:11 +0000
Subject: [PATCH 172/203] fix: Laplace samples are finite at the ends of the
 uniform draw

---
 src/univariate/laplace.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/univariate/laplace.rs b/src/univariate/laplace.rs
index 703ae89..02e6240 100644
--- a/src/univariate/laplace.rs
+++ b/src/univariate/laplace.rs
@@ -57,9 +57,7 @@ impl Distribution for Laplace {
     }
 
     fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> f64 {
-        use rand_distr::Distribution as _;
-
-        let u: f64 = rand_distr::Uniform::new(-0.5, 0.5).sample(rng);
+        let u = rng.sample::<f64, _>(rand::distributions::Open01) - 0.5;
         let (mu, b) = get_params!(self);
 
         mu - b * u.signum() * (1.0 - 2.0 * u.abs()).ln()
-- 
2.43.0


From 3eeef1cfc81ddac2c834b38d8213381eea01d058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:11 +0000
Subject: [PATCH 173/203] fix: Weibull samples are positive at the ends of the
 uniform draw

---
 src/univariate/weibull.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/univariate/weibull.rs b/src/univariate/weibull.rs
index e388bbc..e359173 100644
--- a/src/univariate/weibull.rs
+++ b/src/univariate/weibull.rs
@@ -55,11 +55,10 @@ impl Distribution for Weibull {
     }
 
     fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> f64 {
-        use rand_distr::Distribution as _;
-
         let (lambda, k) = get_params!(self);
+        let u: f64 = rng.sample(rand::distributions::Open01);
 
-        rand_distr::Weibull::new(lambda, k).unwrap().sample(rng)
+        lambda * (-u.ln()).powf(1.0 / k)
     }
 }
 
-- 
2.43.0


From d2216fdec4789d9d1f62c00df46973d5694b7bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:56 +0000
Subject: [PATCH 174/203] fix: the integer uniform distribution of the largest
 width overflows

---
 src/univariate/uniform.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/univariate/uniform.rs b/src/univariate/uniform.rs
index 06533ac..d498fce 100644
--- a/src/univariate/uniform.rs
+++ b/src/univariate/uniform.rs
@@ -192,7 +192,7 @@ impl fmt::Display for Uniform<f64> {
 impl Uniform<i64> {
     pub fn new(lb: i64, width: u64) -> Result<Uniform<i64>, UnsatisfiedConstraintError<i64>> {
         Params::new(lb, width as i64).map(|p| Uniform {
-            prob: 1.0 / (p.width.0 + 1) as f64,
+            prob: 1.0 / (p.width.0 as f64 + 1.0),
             params: p,
         })
     }
@@ -205,7 +205,7 @@ impl Uniform<i64> {
 impl From<Params<i64>> for Uniform<i64> {
     fn from(params: Params<i64>) -> Uniform<i64> {
         Uniform {
-            prob: 1.0 / (params.width.0 + 1) as f64,
+            prob: 1.0 / (params.width.0 as f64 + 1.0),
             params,
         }
     }
@@ -213,7 +213,7 @@ impl From<Params<i64>> for Uniform<i64> {
 
 impl Uniform<i64> {
     #[inline]
-    pub fn span(&self) -> u64 { (self.params.width.0 + 1) as u64 }
+    pub fn span(&self) -> u64 { self.params.width.0 as u64 + 1 }
 }
 
 impl Distribution for Uniform<i64> {
@@ -295,7 +295,7 @@ impl Quantiles for Uniform<i64> {
 }
 
 impl ShannonEntropy for Uniform<i64> {
-    fn shannon_entropy(&self) -> f64 { ((self.params.width.0 + 1) as f64).ln() }
+    fn shannon_entropy(&self) -> f64 { (self.params.width.0 as f64 + 1.0).ln() }
 }
 
 impl fmt::Display for Uniform<i64> {
-- 
2.43.0


From 78fec9d31657824a938fa8fa1aa7b0a3ae17ec73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:29 +0000
Subject: [PATCH 175/203] fix: the geometric distribution loses the digits of
 small success probabilities

---
 src/univariate/geometric.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/univariate/geometric.rs b/src/univariate/geometric.rs
index bccdcf5..93a2955 100644
--- a/src/univariate/geometric.rs
+++ b/src/univariate/geometric.rs
@@ -47,7 +47,7 @@ impl Distribution for Geometric {
     fn params(&self) -> Params { self.params }
 
     fn cdf(&self, k: &u64) -> Probability {
-        Probability::new_unchecked(1.0 - self.q.powf(*k as f64 + 1.0))
+        Probability::new_unchecked(-((*k as f64 + 1.0) * (-self.params.p.unwrap()).ln_1p()).exp_m1())
     }
 
     fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> u64 {
@@ -61,7 +61,13 @@ impl Distribution for Geometric {
 
 impl DiscreteDistribution for Geometric {
     fn pmf(&self, k: &u64) -> Probability {
-        Probability::new_unchecked(self.params.p * self.q.powf(*k as f64))
+        if *k == 0 {
+            return self.params.p;
+        }
+
+        let log_failures = *k as f64 * (-self.params.p.unwrap()).ln_1p();
+
+        Probability::new_unchecked(self.params.p * log_failures.exp())
     }
 }
 
@@ -88,7 +94,9 @@ impl UvMoments for Geometric {
 impl Quantiles for Geometric {
     fn quantile(&self, _: Probability) -> f64 { unimplemented!() }
 
-    fn median(&self) -> f64 { ((-1.0 / self.q.log2()).ceil() - 1.0).max(0.0) }
+    fn median(&self) -> f64 {
+        ((-std::f64::consts::LN_2 / (-self.params.p.unwrap()).ln_1p()).ceil() - 1.0).max(0.0)
+    }
 }
 
 impl Modes for Geometric {
@@ -103,7 +111,7 @@ impl ShannonEntropy for Geometric {
             return 0.0;
         }
 
-        (-q * q.log2() - p * p.log2()) / p
+        (-q * (-p).ln_1p() / std::f64::consts::LN_2 - p * p.log2()) / p
     }
 }
 
-- 
2.43.0


From 8291b6b03f22cfed559b0cebb462bfd555ca8075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:29 +0000
Subject: [PATCH 176/203] fix: the log-factorial of the largest integer
 overflows

---
 src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 172e3b9..8476bc0 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -12,7 +12,7 @@ pub fn factorial(n: u64) -> u64 {
 
 pub fn log_factorial_stirling(n: u64) -> f64 {
     if n > 254 {
-        let x = (n + 1) as f64;
+        let x = n as f64 + 1.0;
 
         (x - 0.5) * x.ln() - x + 0.5 * (2.0 * consts::PI).ln() + 1.0 / (12.0 * x)
     } else {
-- 
2.43.0


From 04f90282cdd3df3bb586dbbd38969b79a17efb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:01 +0000
Subject: [PATCH 177/203] fix: the log-normal moments lose the digits of small
 variances

---
 src/univariate/lognormal.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/univariate/lognormal.rs b/src/univariate/lognormal.rs
index a75db69..06cb346 100644
--- a/src/univariate/lognormal.rs
+++ b/src/univariate/lognormal.rs
@@ -92,19 +92,19 @@ impl UvMoments for LogNormal {
         let (mu, sigma) = get_params!(self);
         let sigma2 = sigma * sigma;
 
-        (sigma2.exp() - 1.0) * (2.0 * mu + sigma2).exp()
+        sigma2.exp_m1() * (2.0 * mu + sigma2).exp()
     }
 
     fn skewness(&self) -> f64 {
         let sigma2 = (self.0).0.Sigma.0;
 
-        (sigma2.exp() + 2.0) * (sigma2.exp() - 1.0).sqrt()
+        (sigma2.exp() + 2.0) * sigma2.exp_m1().sqrt()
     }
 
     fn excess_kurtosis(&self) -> f64 {
         let sigma2 = (self.0).0.Sigma.0;
 
-        (4.0 * sigma2).exp() + 2.0 * (3.0 * sigma2).exp() + 3.0 * (2.0 * sigma2).exp() - 6.0
+        (4.0 * sigma2).exp_m1() + 2.0 * (3.0 * sigma2).exp_m1() + 3.0 * (2.0 * sigma2).exp_m1()
     }
 }
 
-- 
2.43.0


From 4753a4c52a4caa812fe4f1b0669f732dd351a4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:01 +0000
Subject: [PATCH 178/203] fix: the log-normal entropy is finite for every
 location

---
 src/univariate/lognormal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/lognormal.rs b/src/univariate/lognormal.rs
index 06cb346..19c214c 100644
--- a/src/univariate/lognormal.rs
+++ b/src/univariate/lognormal.rs
@@ -126,7 +126,7 @@ impl ShannonEntropy for LogNormal {
     fn shannon_entropy(&self) -> f64 {
         let (mu, sigma) = get_params!(self);
 
-        (sigma * (mu + 0.5).exp() * PI_2.sqrt()).log2()
+        (sigma * PI_2.sqrt()).log2() + (mu + 0.5) * std::f64::consts::LOG2_E
     }
 }
 
-- 
2.43.0


From e316e6eb4737eec6b4fe5f71cafc0d224f75fb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:01 +0000
Subject: [PATCH 179/203] fix: the multivariate log-normal covariances lose the
 digits of small variances

---
 src/multivariate/lognormal.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/multivariate/lognormal.rs b/src/multivariate/lognormal.rs
index 0c40239..7ede111 100644
--- a/src/multivariate/lognormal.rs
+++ b/src/multivariate/lognormal.rs
@@ -134,7 +134,7 @@ where
             ($i:ident, $j:ident) => {
                 let x = self.0.params.mu.0[$i] + self.0.params.mu.0[$j];
                 let y = (log_cov[$i][$i] + log_cov[$j][$j]) / 2.0;
-                let z = log_cov[$i][$j].exp() - 1.0;
+                let z = log_cov[$i][$j].exp_m1();
 
                 cov[$i][$j] = (x + y).exp() * z;
             }
@@ -160,7 +160,7 @@ where
         let mut var = self.0.variance();
 
         for i in 0..N {
-            var[i] = (2.0 * self.0.params.mu.0[i] + var[i]).exp() * (var[i].exp() - 1.0)
+            var[i] = (2.0 * self.0.params.mu.0[i] + var[i]).exp() * var[i].exp_m1()
         }
 
         var
-- 
2.43.0


From 992895e635a5f028f03d2bca8a82527233460bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:01 +0000
Subject: [PATCH 180/203] fix: the folded normal variance loses its digits for
 distant means

---
 src/univariate/folded_normal.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/univariate/folded_normal.rs b/src/univariate/folded_normal.rs
index 0d272f3..017fa2e 100644
--- a/src/univariate/folded_normal.rs
+++ b/src/univariate/folded_normal.rs
@@ -118,10 +118,16 @@ impl UvMoments for FoldedNormal {
     }
 
     fn variance(&self) -> f64 {
+        use special_fun::FloatSpecial;
+
         let (mu, sigma) = get_params!(self);
-        let mean = self.mean();
+        let mu = mu.abs();
+        let z = mu / sigma / 2.0f64.sqrt();
+
+        // How far folding moves the mean.
+        let shift = sigma * TWO_OVER_PI.sqrt() * (-z * z).exp() - mu * z.erfc();
 
-        mu * mu + sigma * sigma - mean * mean
+        sigma * sigma - shift * (2.0 * mu + shift)
     }
 
     fn skewness(&self) -> f64 { unimplemented!() }
-- 
2.43.0


From 1b725984bf7eee06d414a2094e1252276af9ebbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:01 +0000
Subject: [PATCH 181/203] fix: the inverse normal samples of very skewed laws
 are zero or negative

---
 src/univariate/inverse_normal.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/univariate/inverse_normal.rs b/src/univariate/inverse_normal.rs
index 81aa054..37b2525 100644
--- a/src/univariate/inverse_normal.rs
+++ b/src/univariate/inverse_normal.rs
@@ -128,8 +128,8 @@ impl Distribution for InvNormal {
         let nu = self.std_norm.sample(rng);
 
         let y = nu * nu;
-        let x = mu + mu * mu * y / 2.0 / lambda
-            - mu / 2.0 / lambda * (4.0 * mu * lambda * y + mu * mu * y * y).sqrt();
+        let w = mu * y / lambda;
+        let x = mu / (1.0 + w / 2.0 + (w + w * w / 4.0).sqrt());
 
         let z = Uniform::<f64>::new_unchecked(0.0, 1.0).sample(rng);
 
-- 
2.43.0


From 873170e57ce7eafdc90f6f2f5d13928a3a0807b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:01 +0000
Subject: [PATCH 182/203] fix: the Dirichlet samples are numbers for the
 smallest concentrations

---
 src/multivariate/dirichlet.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/multivariate/dirichlet.rs b/src/multivariate/dirichlet.rs
index dbc9b16..d03cc83 100644
--- a/src/multivariate/dirichlet.rs
+++ b/src/multivariate/dirichlet.rs
@@ -62,15 +62,27 @@ impl<const N: usize> Distribution for Dirichlet<N> {
     fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> [f64; N] {
         use rand_distr::Gamma as GammaSampler;
 
-        let mut sum = 0.0f64;
         let mut sample = [0.0; N];
 
         for i in 0..N {
             let a = self.alphas.0[i];
-            let s = rng.sample(GammaSampler::new(a, 1.0).unwrap());
 
-            sum += s;
-            sample[i] = s;
+            // The gamma samples of small concentrations underflow, but not their logarithms.
+            sample[i] = if a < 1.0 {
+                let u: f64 = rng.sample(rand::distributions::Open01);
+
+                rng.sample(GammaSampler::new(a + 1.0, 1.0).unwrap()).ln() + u.ln() / a
+            } else {
+                rng.sample(GammaSampler::new(a, 1.0).unwrap()).ln()
+            };
+        }
+
+        let max = sample.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
+        let mut sum = 0.0f64;
+
+        for i in 0..N {
+            sample[i] = (sample[i] - max).exp();
+            sum += sample[i];
         }
 
         for i in 0..N {
-- 
2.43.0


From 50a7f44276d98b8806ec79c4f2ea0d90b014b826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:13 +0000
Subject: [PATCH 183/203] fix: a UvNormal is not fitted to constant data

---
 src/normal/univariate.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/normal/univariate.rs b/src/normal/univariate.rs
index ce717c0..387363c 100644
--- a/src/normal/univariate.rs
+++ b/src/normal/univariate.rs
@@ -210,7 +210,10 @@ impl MLE for UvNormal {
         // We compute the biased estimate here for correctness.
         // The variance can be rescaled by n / (n - 1) to adjust for
         // the estimator of mu.
-        let mean = xs.iter().fold(0.0, |acc, &x| acc + x) / n;
+        // The sum is taken about the first sample so that the deviations of
+        // constant data vanish exactly.
+        let x0 = xs.first().cloned().unwrap_or(0.0);
+        let mean = x0 + xs.iter().fold(0.0, |acc, &x| acc + (x - x0)) / n;
         let var = xs.into_iter().map(|x| x - mean).fold(0.0, |acc, r| acc + r * r) / n;
 
         UvNormal::new(mean, var)
-- 
2.43.0


From ec192eb843fa388bd72f7a3fb9c8c9a4f340d868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:28 +0000
Subject: [PATCH 184/203] fix: the Poisson score of huge samples does not
 overflow

---
 src/univariate/poisson.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/poisson.rs b/src/univariate/poisson.rs
index 46f3618..e9dc87b 100644
--- a/src/univariate/poisson.rs
+++ b/src/univariate/poisson.rs
@@ -141,7 +141,7 @@ impl Score for Poisson {
         let l = get_lambda!(self);
 
         Grad {
-            lambda: -n + samples.into_iter().sum::<u64>() as f64 / l,
+            lambda: -n + samples.iter().map(|&k| k as f64).sum::<f64>() / l,
         }
     }
 }
-- 
2.43.0


From 1098af39c0e64b3800a031af2b792c885638093a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:28 +0000
Subject: [PATCH 185/203] fix: multinomial counts whose sum overflows have no
 mass

---
 src/multivariate/multinomial.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/multivariate/multinomial.rs b/src/multivariate/multinomial.rs
index ab445b4..a28d43c 100644
--- a/src/multivariate/multinomial.rs
+++ b/src/multivariate/multinomial.rs
@@ -100,7 +100,9 @@ impl<const N: usize> DiscreteDistribution for Multinomial<N> {
         let _ = assert_constraint!(xn == (self.0.ps.len())).unwrap();
 
         // The total number of trials must be equal to n.
-        if xs.iter().fold(0, |acc, v| acc + *v) != self.0.n.0 {
+        let total = xs.iter().try_fold(0usize, |acc, v| acc.checked_add(*v));
+
+        if total != Some(self.0.n.0) {
             return std::f64::NEG_INFINITY;
         }
 
-- 
2.43.0


From 0ed3d454fc4e73202a597f5dc2fbcf120897145d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:28 +0000
Subject: [PATCH 186/203] fix: the modes of the binomial with the largest count
 do not overflow

---
 src/univariate/binomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/binomial.rs b/src/univariate/binomial.rs
index 6c06ed6..88beb0e 100644
--- a/src/univariate/binomial.rs
+++ b/src/univariate/binomial.rs
@@ -161,7 +161,7 @@ impl Modes for Binomial {
     fn modes(&self) -> Vec<usize> {
         let (n, p) = get_params!(self);
 
-        let m = p * (n + 1) as f64;
+        let m = p * (n as f64 + 1.0);
         let k = (m.floor() as usize).min(n);
 
         if k > 0 && m == k as f64 {
-- 
2.43.0


From 56e3ac34679f53cc1cdfc8921563b5af3ea08c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:28 +0000
Subject: [PATCH 187/203] fix: binomial counts whose sum overflows are not
 convolved

---
 src/univariate/binomial.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/univariate/binomial.rs b/src/univariate/binomial.rs
index 88beb0e..d4aa842 100644
--- a/src/univariate/binomial.rs
+++ b/src/univariate/binomial.rs
@@ -184,6 +184,11 @@ impl FisherInformation<1> for Binomial {
     }
 }
 
+fn add_counts(n1: usize, n2: usize) -> Result<usize, failure::Error> {
+    n1.checked_add(n2)
+        .ok_or_else(|| failure::err_msg("the number of trials overflows"))
+}
+
 impl Convolution<Bernoulli> for Binomial {
     type Output = Binomial;
 
@@ -191,7 +196,9 @@ impl Convolution<Bernoulli> for Binomial {
         let p1 = self.params.p;
         let p2 = rv.params.p;
 
-        Binomial::new(self.params.n.0 + 1, assert_constraint!(p1 == p2)?)
+        let p = assert_constraint!(p1 == p2)?;
+
+        Binomial::new(add_counts(self.params.n.0, 1)?, p)
     }
 }
 
@@ -204,7 +211,7 @@ impl Convolution<Binomial> for Binomial {
 
         assert_constraint!(p1 == p2)?;
 
-        Binomial::new(self.params.n.0 + rv.params.n.0, p1)
+        Binomial::new(add_counts(self.params.n.0, rv.params.n.0)?, p1)
     }
 }
 
-- 
2.43.0


From b35516cd2056c676776028454b6270cbdd919753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:20 +0000
Subject: [PATCH 188/203] fix: gamma likelihood and score for samples and rates
 below 1e-9

---
 src/univariate/gamma.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/univariate/gamma.rs b/src/univariate/gamma.rs
index 8d55cdd..24e893f 100644
--- a/src/univariate/gamma.rs
+++ b/src/univariate/gamma.rs
@@ -138,7 +138,7 @@ impl ShannonEntropy for Gamma {
 
 impl Likelihood for Gamma {
     fn log_likelihood(&self, samples: &[f64]) -> f64 {
-        const JITTER: f64 = 1e-9;
+        const JITTER: f64 = std::f64::MIN_POSITIVE;
 
         let n = samples.len() as f64;
 
@@ -158,7 +158,7 @@ impl Score for Gamma {
     type Grad = Grad;
 
     fn score(&self, samples: &[f64]) -> Grad {
-        const JITTER: f64 = 1e-9;
+        const JITTER: f64 = std::f64::MIN_POSITIVE;
 
         let n = samples.len() as f64;
 
-- 
2.43.0


From d6d91a332f764f475b6c7b5a10273531a6b6bc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:20 +0000
Subject: [PATCH 189/203] fix: beta likelihood and score for samples within
 1e-9 of an end

---
 src/univariate/beta.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/univariate/beta.rs b/src/univariate/beta.rs
index aeb6251..27348cc 100644
--- a/src/univariate/beta.rs
+++ b/src/univariate/beta.rs
@@ -171,7 +171,7 @@ impl ShannonEntropy for Beta {
 
 impl Likelihood for Beta {
     fn log_likelihood(&self, samples: &[f64]) -> f64 {
-        const JITTER: f64 = 1e-9;
+        const JITTER: f64 = std::f64::MIN_POSITIVE;
 
         let n = samples.len() as f64;
 
@@ -190,7 +190,7 @@ impl Score for Beta {
     type Grad = Grad;
 
     fn score(&self, samples: &[f64]) -> Grad {
-        const JITTER: f64 = 1e-9;
+        const JITTER: f64 = std::f64::MIN_POSITIVE;
 
         let (a, b) = get_params!(self);
 
-- 
2.43.0


From f52399a57cd853a4380165ed811fd32ff62f7b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:34 +0000
Subject: [PATCH 190/203] fix: pareto entropy for small alpha, which overflowed

---
 src/univariate/pareto.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/pareto.rs b/src/univariate/pareto.rs
index bfc2e01..19e9d90 100644
--- a/src/univariate/pareto.rs
+++ b/src/univariate/pareto.rs
@@ -134,7 +134,7 @@ impl ShannonEntropy for Pareto {
     fn shannon_entropy(&self) -> f64 {
         let (x_m, alpha) = get_params!(self);
 
-        (x_m / alpha * (1.0 + 1.0 / alpha).exp()).ln()
+        (x_m / alpha).ln() + 1.0 + 1.0 / alpha
     }
 }
 
-- 
2.43.0


From d72057c4e4e78864b81775d4e275085c922f6362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:34 +0000
Subject: [PATCH 191/203] fix: inverse normal mode for lambda much smaller than
 mu, which cancelled

---
 src/univariate/inverse_normal.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/univariate/inverse_normal.rs b/src/univariate/inverse_normal.rs
index 37b2525..3f6e3af 100644
--- a/src/univariate/inverse_normal.rs
+++ b/src/univariate/inverse_normal.rs
@@ -185,10 +185,9 @@ impl Modes for InvNormal {
     fn modes(&self) -> Vec<f64> {
         let (mu, lambda) = get_params!(self);
 
-        let term1 = (1.0 + 9.0 * mu * mu / 4.0 / lambda / lambda).sqrt();
-        let term2 = 3.0 * mu / 2.0 / lambda;
+        let term = 3.0 * mu / 2.0 / lambda;
 
-        vec![mu * (term1 - term2)]
+        vec![mu / (1.0f64.hypot(term) + term)]
     }
 }
 
-- 
2.43.0


From 6ea7cd181a7e43b97d607b3899ff0d78873d3d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:34 +0000
Subject: [PATCH 192/203] fix: chi mean and variance for many degrees of
 freedom, which cancelled

---
 src/univariate/chi.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/univariate/chi.rs b/src/univariate/chi.rs
index 60ce739..3bf2e0d 100644
--- a/src/univariate/chi.rs
+++ b/src/univariate/chi.rs
@@ -78,6 +78,11 @@ impl UvMoments for Chi {
     fn mean(&self) -> f64 {
         let k = get_k!(self);
 
+        if k > 1e3 {
+            // The ratio of gamma functions loses its digits: Stirling's series instead.
+            return k.sqrt() * (1.0 - (0.25 - (1.0 / 32.0 + (5.0 / 128.0 - 21.0 / 2048.0 / k) / k) / k) / k);
+        }
+
         2.0f64.sqrt() * (((k + 1.0) / 2.0).loggamma() - (k / 2.0).loggamma()).exp()
     }
 
@@ -85,6 +90,10 @@ impl UvMoments for Chi {
         let k = get_k!(self);
         let mu = self.mean();
 
+        if k > 1e3 {
+            return 0.5 - (0.125 + (0.0625 - 5.0 / 128.0 / k) / k) / k;
+        }
+
         k - mu * mu
     }
 
-- 
2.43.0


From ff0a6602978dd6116bbaeec4de431b21dfde910b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:15 +0000
Subject: [PATCH 193/203] fix: bivariate normal density in small units, which
 underflowed before scaling

---
 src/normal/bivariate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/normal/bivariate.rs b/src/normal/bivariate.rs
index ca9166b..8c70c01 100644
--- a/src/normal/bivariate.rs
+++ b/src/normal/bivariate.rs
@@ -135,7 +135,7 @@ impl ContinuousDistribution for BvNormal {
 
         let norm = PI_2 * sigma2_0.sqrt() * sigma2_1.sqrt() * (1.0 - rho * rho).sqrt();
 
-        (-z / 2.0).exp() / norm
+        (-z / 2.0 - norm.ln()).exp()
     }
 }
 
-- 
2.43.0


From 64898975d80f417dcf04066d7cb7e737383cf62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:15 +0000
Subject: [PATCH 194/203] fix: paired normal density in small units, which
 underflowed before scaling

---
 src/normal/paired.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/normal/paired.rs b/src/normal/paired.rs
index 524bc28..44a3e87 100644
--- a/src/normal/paired.rs
+++ b/src/normal/paired.rs
@@ -109,7 +109,7 @@ impl ContinuousDistribution for PairedNormal {
 
         let norm = PI_2 * Sigma[0].sqrt() * Sigma[1].sqrt();
 
-        (-z / 2.0).exp() / norm
+        (-z / 2.0 - norm.ln()).exp()
     }
 }
 
-- 
2.43.0


From a8a1f1472abe5831889a682011e97540dcfe9243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:10 +0000
Subject: [PATCH 195/203] fix: rayleigh density in small units, whose square
 underflowed

---
 src/univariate/rayleigh.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/univariate/rayleigh.rs b/src/univariate/rayleigh.rs
index 95717c5..4345f55 100644
--- a/src/univariate/rayleigh.rs
+++ b/src/univariate/rayleigh.rs
@@ -63,13 +63,13 @@ impl Distribution for Rayleigh {
 impl ContinuousDistribution for Rayleigh {
     fn pdf(&self, x: &f64) -> f64 {
         let sigma = get_sigma!(self);
-        let sigma2 = sigma * sigma;
+        let z = x / sigma;
 
-        if *x < 0.0 || x.is_infinite() {
+        if *x < 0.0 || z.is_infinite() {
             return 0.0;
         }
 
-        (-x * x / sigma2 / 2.0).exp() * x / sigma2
+        (-z * z / 2.0).exp() * z / sigma
     }
 }
 
-- 
2.43.0


From 57e901ded59e3caa3347a0da328e2bfca5a01713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:10 +0000
Subject: [PATCH 196/203] fix: rayleigh distribution function in small units,
 where the square of the argument underflowed

---
 src/univariate/rayleigh.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/univariate/rayleigh.rs b/src/univariate/rayleigh.rs
index 4345f55..4e1eb2e 100644
--- a/src/univariate/rayleigh.rs
+++ b/src/univariate/rayleigh.rs
@@ -52,9 +52,9 @@ impl Distribution for Rayleigh {
     fn cdf(&self, x: &f64) -> Probability {
         let sigma = get_sigma!(self);
 
-        let x = x.max(0.0);
+        let z = x.max(0.0) / sigma;
 
-        Probability::new_unchecked(1.0 - (-x * x / sigma / sigma / 2.0).exp())
+        Probability::new_unchecked(1.0 - (-z * z / 2.0).exp())
     }
 
     fn sample<R: Rng + ?Sized>(&self, _: &mut R) -> f64 { unimplemented!() }
-- 
2.43.0


From 89a420255c842a503009e3cbb9a37925660c183c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:10 +0000
Subject: [PATCH 197/203] fix: cauchy density far out in small units, where the
 square overflowed

---
 src/univariate/cauchy.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/univariate/cauchy.rs b/src/univariate/cauchy.rs
index 43b419b..84c80ce 100644
--- a/src/univariate/cauchy.rs
+++ b/src/univariate/cauchy.rs
@@ -74,9 +74,9 @@ impl Distribution for Cauchy {
 
 impl ContinuousDistribution for Cauchy {
     fn pdf(&self, x: &f64) -> f64 {
-        let z = self.z(*x);
+        let r = self.z(*x).hypot(1.0);
 
-        1.0 / PI / self.0.gamma.0 / (1.0 + z * z)
+        1.0 / PI / self.0.gamma.0 / r / r
     }
 }
 
-- 
2.43.0


From 168583c82cdeda458cb1f5fd6fe04df379cd48f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:10 +0000
Subject: [PATCH 198/203] fix: gev density far out in small units, which
 underflowed before scaling

---
 src/univariate/gev.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/gev.rs b/src/univariate/gev.rs
index d854992..5934f11 100644
--- a/src/univariate/gev.rs
+++ b/src/univariate/gev.rs
@@ -80,7 +80,7 @@ impl ContinuousDistribution for GeneralisedExtremeValue {
             return 0.0;
         }
 
-        tx.powf(self.0.zeta.0 + 1.0) * (-tx).exp() / self.0.sigma.0
+        ((self.0.zeta.0 + 1.0) * tx.ln() - tx - self.0.sigma.0.ln()).exp()
     }
 }
 
-- 
2.43.0


From 1eb98bc734ee7853d987bfdef027ecb307040897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:05 +0000
Subject: [PATCH 199/203] fix: f_dist draws of two gammas that are exactly
 zero, which gave NaN

---
 src/univariate/f_dist.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/univariate/f_dist.rs b/src/univariate/f_dist.rs
index fd1319b..7c93b27 100644
--- a/src/univariate/f_dist.rs
+++ b/src/univariate/f_dist.rs
@@ -69,9 +69,16 @@ impl Distribution for FDist {
 
         let (d1, d2) = get_params!(self);
 
-        rand_distr::FisherF::new(d1 as f64, d2 as f64)
-            .unwrap()
-            .sample(rng)
+        let law = rand_distr::FisherF::new(d1 as f64, d2 as f64).unwrap();
+
+        // A gamma draw can be exactly zero, and the ratio is then no number of the support.
+        loop {
+            let x = law.sample(rng);
+
+            if x.is_finite() {
+                return x;
+            }
+        }
     }
 }
 
-- 
2.43.0


From 2bc465794aad655741da11830f51e82b2a4f751c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:05 +0000
Subject: [PATCH 200/203] fix: student_t draws of a zero normal over a zero
 gamma, which gave NaN

---
 src/univariate/student_t.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/univariate/student_t.rs b/src/univariate/student_t.rs
index a8c18fb..0408566 100644
--- a/src/univariate/student_t.rs
+++ b/src/univariate/student_t.rs
@@ -60,9 +60,16 @@ impl Distribution for StudentT {
     fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> f64 {
         use rand_distr::Distribution as _;
 
-        rand_distr::StudentT::new(get_nu!(self))
-            .unwrap()
-            .sample(rng)
+        let law = rand_distr::StudentT::new(get_nu!(self)).unwrap();
+
+        // A normal draw and a gamma draw can both be exactly zero; their ratio is not a number.
+        loop {
+            let x = law.sample(rng);
+
+            if !x.is_nan() {
+                return x;
+            }
+        }
     }
 }
 
-- 
2.43.0


From 1ee31b45771d7f4dff56beffd368a11a64adb4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:28 +0000
Subject: [PATCH 201/203] fix: folded normal written with the variance after
 folding instead of the one that determines it

---
 src/univariate/folded_normal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/folded_normal.rs b/src/univariate/folded_normal.rs
index 017fa2e..753e47e 100644
--- a/src/univariate/folded_normal.rs
+++ b/src/univariate/folded_normal.rs
@@ -166,6 +166,6 @@ impl Modes for FoldedNormal {
 
 impl fmt::Display for FoldedNormal {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        write!(f, "FN({}, {})", self.0.mu.0, self.variance())
+        write!(f, "FN({}, {})", self.0.mu.0, self.0.sigma.0 * self.0.sigma.0)
     }
 }
-- 
2.43.0


From 741fd2b8ac405750b1c958014164467321dfb904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:28 +0000
Subject: [PATCH 202/203] fix: log-normal written with the variance after
 exponentiation instead of the one that determines it

---
 src/univariate/lognormal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/lognormal.rs b/src/univariate/lognormal.rs
index 19c214c..43d04dc 100644
--- a/src/univariate/lognormal.rs
+++ b/src/univariate/lognormal.rs
@@ -143,6 +143,6 @@ impl FisherInformation<2> for LogNormal {
 
 impl fmt::Display for LogNormal {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        write!(f, "LogNormal({}, {})", (self.0).0.mu.0, self.variance())
+        write!(f, "LogNormal({}, {})", (self.0).0.mu.0, (self.0).0.Sigma.0)
     }
 }
-- 
2.43.0


From 9434de9c8df777b93a3368070d6594d4371b3bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:34 +0000
Subject: [PATCH 203/203] fix: Student t tails and density beyond the square
 root of the largest number

---
 src/univariate/student_t.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/univariate/student_t.rs b/src/univariate/student_t.rs
index 0408566..27c1087 100644
--- a/src/univariate/student_t.rs
+++ b/src/univariate/student_t.rs
@@ -46,10 +46,13 @@ impl Distribution for StudentT {
 
         let nu = get_nu!(self);
         let x2 = x * x;
+        let t = x.abs() / nu.sqrt();
 
         // Probability of a value beyond |x| on one side.
         let tail = if x2 < nu {
             0.5 - (x2 / (nu + x2)).betainc(0.5, nu / 2.0) / 2.0
+        } else if t > FAR {
+            height(nu) * t.powf(-nu) / nu.sqrt()
         } else {
             (nu / (nu + x2)).betainc(nu / 2.0, 0.5) / 2.0
         };
@@ -73,13 +76,26 @@ impl Distribution for StudentT {
     }
 }
 
+// Beyond this many scales the law is that of its power tail, and squares may overflow.
+const FAR: f64 = 1e50;
+
+/// Density at zero.
+fn height(nu: f64) -> f64 {
+    use special_fun::FloatSpecial;
+
+    (((nu + 1.0) / 2.0).loggamma() - (nu / 2.0).loggamma()).exp() / (nu * PI).sqrt()
+}
+
 impl ContinuousDistribution for StudentT {
     fn pdf(&self, x: &f64) -> f64 {
-        use special_fun::FloatSpecial;
-
         let nu = get_nu!(self);
         let np1o2 = (nu + 1.0) / 2.0;
-        let norm = (np1o2.loggamma() - (nu / 2.0).loggamma()).exp() / (nu * PI).sqrt();
+        let norm = height(nu);
+        let t = x.abs() / nu.sqrt();
+
+        if t > FAR {
+            return norm * t.powf(-(nu + 1.0));
+        }
 
         norm * (1.0 + x * x / nu).powf(-np1o2)
     }
-- 
2.43.0

