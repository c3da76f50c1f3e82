From 6567090eb3105bab14be9dd15fd5f310f994c706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:17 +0000
Subject: [PATCH 01/15] fix: use the sign in the closure so algebraic_numbers
 compiles

---
 src/algebraic_numbers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algebraic_numbers.rs b/src/algebraic_numbers.rs
index 79f387e..d32daea 100644
--- a/src/algebraic_numbers.rs
+++ b/src/algebraic_numbers.rs
@@ -202,7 +202,7 @@ fn sign_changes_at(
                 let degree = polynomial.degree().unwrap_or(0);
                 let s = Sign::new(&polynomial.highest_power_coefficient());
                 if degree.is_odd() {
-                    s.map(|| -s)
+                    s.map(|s| -s)
                 } else {
                     s
                 }
-- 
2.43.0


From b2734705340b6b6ffae32a01480756e00bd7c318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:13 +0000
Subject: [PATCH 02/15] fix: round both bounds outward in
 DyadicFractionInterval::pow for mixed-sign intervals

---
 src/interval_arithmetic.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/interval_arithmetic.rs b/src/interval_arithmetic.rs
index 6065524..17110ea 100644
--- a/src/interval_arithmetic.rs
+++ b/src/interval_arithmetic.rs
@@ -1254,13 +1254,25 @@ impl<E: Integer> Pow<E> for DyadicFractionInterval {
                     base_lower_bound_numer.set_zero();
                 }
             }
+            // the bound with the smaller magnitude is rounded towards zero, unless the
+            // bounds have opposite signs, where both bounds have to be rounded away from zero
+            let bounds_have_opposite_signs =
+                lower_bound_numer_is_negative != upper_bound_numer_is_negative;
+            let shift_right_lower_bound_numer = |v: BigInt| -> BigInt {
+                if bounds_have_opposite_signs {
+                    -(-v >> log2_denom)
+                } else {
+                    v >> log2_denom
+                }
+            };
             let mut retval_upper_bound_numer = BigInt::one() << log2_denom;
             let mut retval_lower_bound_numer = retval_upper_bound_numer.clone();
             let mut neg_retval_upper_bound_numer = -retval_upper_bound_numer;
             loop {
                 if exponent.is_odd() {
                     retval_lower_bound_numer *= &base_lower_bound_numer;
-                    retval_lower_bound_numer >>= log2_denom;
+                    retval_lower_bound_numer =
+                        shift_right_lower_bound_numer(retval_lower_bound_numer);
                     neg_retval_upper_bound_numer *= &base_upper_bound_numer;
                     neg_retval_upper_bound_numer >>= log2_denom;
                 }
@@ -1270,7 +1282,7 @@ impl<E: Integer> Pow<E> for DyadicFractionInterval {
                     break;
                 }
                 base_lower_bound_numer = &base_lower_bound_numer * &base_lower_bound_numer;
-                base_lower_bound_numer >>= log2_denom;
+                base_lower_bound_numer = shift_right_lower_bound_numer(base_lower_bound_numer);
                 base_upper_bound_numer = -&base_upper_bound_numer * &base_upper_bound_numer;
                 base_upper_bound_numer >>= log2_denom;
                 base_upper_bound_numer = -base_upper_bound_numer;
-- 
2.43.0


From 29b79463fea5ac387ea8fa0d60a57047f6c0e497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:00 +0000
Subject: [PATCH 03/15] fix: exp no longer panics when the last series term is
 exact, and accounts for the terms it drops

---
 src/interval_arithmetic.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/interval_arithmetic.rs b/src/interval_arithmetic.rs
index 17110ea..ddc94ef 100644
--- a/src/interval_arithmetic.rs
+++ b/src/interval_arithmetic.rs
@@ -723,7 +723,8 @@ impl DyadicFractionInterval {
             term /= i;
             retval += &term;
             if term.upper_bound_numer.is_one() || term.upper_bound_numer.is_zero() {
-                assert!(term.lower_bound_numer.is_zero());
+                // the remaining terms add up to at most `term`
+                retval.upper_bound_numer += &term.upper_bound_numer;
                 break;
             }
         }
-- 
2.43.0


From 83d98bf8b9e0496c446eb63f73c54aafde12aeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:23 +0000
Subject: [PATCH 04/15] fix: reduce the argument of exp with the bound of
 log(2) that rounds outward for negative inputs

---
 src/interval_arithmetic.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/interval_arithmetic.rs b/src/interval_arithmetic.rs
index ddc94ef..cdb92a7 100644
--- a/src/interval_arithmetic.rs
+++ b/src/interval_arithmetic.rs
@@ -708,13 +708,23 @@ impl DyadicFractionInterval {
         .expect("input too big in exp()");
         self.convert_log2_denom(working_log2_denom);
         let natural_log_of_2 = Self::natural_log_of_2(working_log2_denom);
-        let (floor_power_of_2_lower_bound, remainder) = self
-            .lower_bound_numer
-            .div_mod_floor(&natural_log_of_2.upper_bound_numer);
+        // the bound of log(2) has to be chosen such that the quotient times log(2) plus the
+        // remainder is rounded outward, so it depends on the sign of the quotient
+        let (floor_power_of_2_lower_bound, remainder) =
+            self.lower_bound_numer
+                .div_mod_floor(if self.lower_bound_numer.is_negative() {
+                    &natural_log_of_2.lower_bound_numer
+                } else {
+                    &natural_log_of_2.upper_bound_numer
+                });
         self.lower_bound_numer = remainder;
-        let (floor_power_of_2_upper_bound, remainder) = self
-            .upper_bound_numer
-            .div_mod_floor(&natural_log_of_2.lower_bound_numer);
+        let (floor_power_of_2_upper_bound, remainder) =
+            self.upper_bound_numer
+                .div_mod_floor(if self.upper_bound_numer.is_negative() {
+                    &natural_log_of_2.upper_bound_numer
+                } else {
+                    &natural_log_of_2.lower_bound_numer
+                });
         self.upper_bound_numer = remainder;
         let mut term = Self::one(working_log2_denom);
         let mut retval = term.clone();
-- 
2.43.0


From f7f438180825039a1de405369ea434b9721aeb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:18 +0000
Subject: [PATCH 05/15] fix: keep the bounds of odd powers of negative
 single-point intervals in order

---
 src/interval_arithmetic.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/interval_arithmetic.rs b/src/interval_arithmetic.rs
index cdb92a7..6862715 100644
--- a/src/interval_arithmetic.rs
+++ b/src/interval_arithmetic.rs
@@ -1253,7 +1253,8 @@ impl<E: Integer> Pow<E> for DyadicFractionInterval {
             if upper_bound_numer_is_negative {
                 base_upper_bound_numer = -base_upper_bound_numer;
             }
-            let mut bounds_swapped = base_lower_bound_numer > base_upper_bound_numer;
+            let mut bounds_swapped =
+                upper_bound_numer_is_negative || base_lower_bound_numer > base_upper_bound_numer;
             if bounds_swapped {
                 mem::swap(&mut base_lower_bound_numer, &mut base_upper_bound_numer);
             }
-- 
2.43.0


From f2b81e269749f55c4ce86e4a60410bc110b44571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:19 +0000
Subject: [PATCH 06/15] fix: gcd of a zero and a negative fraction is
 non-negative like every other gcd

---
 src/traits.rs | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/src/traits.rs b/src/traits.rs
index 560848c..ef2a297 100644
--- a/src/traits.rs
+++ b/src/traits.rs
@@ -129,18 +129,6 @@ impl_gcd_for_signed_int!(BigInt);
 impl<T: Integer + Clone + for<'a> Mul<&'a T, Output = T>> GCD for Ratio<T> {
     type Output = Self;
     fn gcd_lcm(&self, rhs: &Self) -> GCDAndLCM<Self> {
-        if self.is_zero() {
-            return GCDAndLCM {
-                gcd: rhs.clone(),
-                lcm: Zero::zero(),
-            };
-        }
-        if rhs.is_zero() {
-            return GCDAndLCM {
-                gcd: self.clone(),
-                lcm: Zero::zero(),
-            };
-        }
         let (gcd_numer, lcm_numer) =
             (self.numer().clone() * rhs.denom()).gcd_lcm(&(rhs.numer().clone() * self.denom()));
         let denom: T = self.denom().clone() * rhs.denom();
-- 
2.43.0


From 1f01fbfc57b02ed5b266e7a52ec5b7b11f654fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:44 +0000
Subject: [PATCH 07/15] fix: the smallest prime is found by next_prime_u32 and
 next_prime_i32

---
 src/util.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 78bd4a3..9387124 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -546,8 +546,8 @@ pub fn prev_prime_i32(v: i32) -> Option<i32> {
 }
 
 pub fn next_prime_u32(mut v: u32) -> Option<u32> {
-    if v < 3 {
-        return Some(3);
+    if v < 2 {
+        return Some(2);
     }
     if v >= 4_294_967_291 {
         return None;
-- 
2.43.0


From e5f4b23ed82f6963c1ce404e11aa5d759d571644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:17 +0000
Subject: [PATCH 08/15] fix: the zeroth modular power is reduced by the modulus

---
 src/mod_int.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mod_int.rs b/src/mod_int.rs
index f80c53f..667461f 100644
--- a/src/mod_int.rs
+++ b/src/mod_int.rs
@@ -414,10 +414,10 @@ macro_rules! impl_prim_int_modulus {
 
         impl<E: Integer + Clone + FromPrimitive> ModularReducePow<E> for $t {
             fn pow_modular_reduce<M: Modulus<Self>>(&self, exponent: &E, modulus: M) -> Self {
+                let modulus = *modulus.to_modulus();
                 if exponent.is_zero() {
-                    return One::one();
+                    return Self::one().modular_reduce(modulus);
                 }
-                let modulus = *modulus.to_modulus();
                 let mut base = *self;
                 base.modular_reduce_assign(modulus);
                 if exponent.is_one() {
-- 
2.43.0


From 47b3261b485a8c540b2920ddfb9f82b98d980366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:05 +0000
Subject: [PATCH 09/15] fix: adding a fraction to a polynomial over fractions
 rescales every coefficient

---
 src/polynomial/add_sub.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/polynomial/add_sub.rs b/src/polynomial/add_sub.rs
index a7bc3e2..e59d7a3 100644
--- a/src/polynomial/add_sub.rs
+++ b/src/polynomial/add_sub.rs
@@ -57,18 +57,20 @@ fn add_sub_assign_single<
     let GCDAndLCM { gcd, lcm: divisor } = lhs.divisor.gcd_lcm(&rhs_divisor);
     let lhs_divisor = mem::replace(&mut lhs.divisor, divisor);
     let lhs_multiplier = T::divisor_to_element(
-        Cow::Owned(lhs_divisor * &gcd),
+        Cow::Owned(rhs_divisor.exact_div(&gcd)),
         Cow::Borrowed(&rhs_numerator),
     );
     let rhs_multiplier = T::divisor_to_element(
-        Cow::Owned(gcd * &rhs_divisor),
+        Cow::Owned(ExactDiv::<T::Divisor>::exact_div(lhs_divisor, gcd)),
         Cow::Borrowed(&rhs_numerator),
     );
     if lhs.is_empty() {
         lhs.elements
             .push(T::make_zero_element(Cow::Borrowed(&rhs_numerator)));
     }
-    lhs.elements[0] *= &lhs_multiplier;
+    for lhs_element in &mut lhs.elements {
+        *lhs_element *= &lhs_multiplier;
+    }
     add_sub_assign(&mut lhs.elements[0], rhs_numerator * &rhs_multiplier);
     lhs.normalize();
 }
-- 
2.43.0


From c8d5cb342a09f2e47d6c130070e28f2b1b1aca80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:09 +0000
Subject: [PATCH 10/15] fix: a failed checked_exact_div_assign by a coefficient
 leaves the polynomial unchanged

---
 src/polynomial/div_rem.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial/div_rem.rs b/src/polynomial/div_rem.rs
index 762b6a2..4c57c2d 100644
--- a/src/polynomial/div_rem.rs
+++ b/src/polynomial/div_rem.rs
@@ -346,7 +346,7 @@ fn checked_div_assign_single<T: PolynomialCoefficient + for<'a> ExactDiv<&'a T,
     lhs: &mut Polynomial<T>,
     rhs: &T,
 ) -> Result<(), ()> {
-    *lhs = checked_div_single(Cow::Owned(mem::replace(lhs, Zero::zero())), rhs).ok_or(())?;
+    *lhs = checked_div_single(Cow::Borrowed(&*lhs), rhs).ok_or(())?;
     Ok(())
 }
 
-- 
2.43.0


From 82b50131e97c211891c6c68a84721e8fda48382d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:14 +0000
Subject: [PATCH 11/15] fix: the zeroth polynomial modular power is reduced by
 the modulus

---
 src/polynomial/div_rem.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial/div_rem.rs b/src/polynomial/div_rem.rs
index 4c57c2d..d2016da 100644
--- a/src/polynomial/div_rem.rs
+++ b/src/polynomial/div_rem.rs
@@ -478,7 +478,7 @@ impl<T: PolynomialDivSupported> Polynomial<T> {
             return None;
         }
         if exponent.is_zero() {
-            return self.to_one_if_nonzero();
+            return self.to_one_if_nonzero()?.checked_rem(modulus);
         }
         let mut base = self.checked_rem(modulus)?;
         if exponent.is_one() {
-- 
2.43.0


From 8f889905fe4e84c5fa453b4996f2ec56d62a052b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:38 +0000
Subject: [PATCH 12/15] fix: factorisation over the integers normalises the
 lifted factors before combining them

---
 src/polynomial/factorization_over_integers.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/polynomial/factorization_over_integers.rs b/src/polynomial/factorization_over_integers.rs
index 587963a..d1129ee 100644
--- a/src/polynomial/factorization_over_integers.rs
+++ b/src/polynomial/factorization_over_integers.rs
@@ -542,6 +542,11 @@ impl Polynomial<BigInt> {
 
         modular_factors.retain(|factor| factor.degree() != Some(0));
 
+        // lifting can leave parts of the leading coefficient in any of the factors
+        for factor in &mut modular_factors {
+            factor.monic_assign();
+        }
+
         debug_assert!(modular_factors
             .iter()
             .position(|factor| match factor.degree() {
-- 
2.43.0


From d33b787d1d20a3e2e0e63f3f06da57cf83b80972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:13 +0000
Subject: [PATCH 13/15] fix: a rational root on the bound of the search
 interval is not taken for the result

---
 src/algebraic_numbers.rs | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/algebraic_numbers.rs b/src/algebraic_numbers.rs
index d32daea..b94be07 100644
--- a/src/algebraic_numbers.rs
+++ b/src/algebraic_numbers.rs
@@ -1000,23 +1000,16 @@ trait RootSelector: Sized {
                     &factor.primitive_sturm_sequence,
                     ValueOrInfinity::Value(&lower_bound),
                 );
-                if lower_bound_sign_changes.is_root {
-                    return lower_bound.into();
-                }
                 let upper_bound_sign_changes = sign_changes_at(
                     &factor.primitive_sturm_sequence,
                     ValueOrInfinity::Value(&upper_bound),
                 );
-                if upper_bound_sign_changes.is_root {
-                    return upper_bound.into();
-                }
-                if lower_bound_sign_changes.sign_change_count
-                    != upper_bound_sign_changes.sign_change_count
-                {
-                    let num_roots = distance(
-                        lower_bound_sign_changes.sign_change_count,
-                        upper_bound_sign_changes.sign_change_count,
-                    );
+                // sign changes count the roots in the interval excluding the lower bound
+                let num_roots = distance(
+                    lower_bound_sign_changes.sign_change_count,
+                    upper_bound_sign_changes.sign_change_count,
+                ) + lower_bound_sign_changes.is_root as usize;
+                if num_roots != 0 {
                     roots_left += num_roots;
                     factors.push(factor);
                 }
-- 
2.43.0


From c239a198fb8b7eee80e7dad03a1ac2e5cd9978a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:18 +0000
Subject: [PATCH 14/15] fix: fract of a negative fraction is self -
 self.floor() like for irrational numbers

---
 src/algebraic_numbers.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/algebraic_numbers.rs b/src/algebraic_numbers.rs
index b94be07..1c77675 100644
--- a/src/algebraic_numbers.rs
+++ b/src/algebraic_numbers.rs
@@ -519,7 +519,7 @@ impl RealAlgebraicNumber {
     /// returns `self - self.floor()`
     pub fn into_fract(mut self) -> Self {
         if let Some(ratio) = self.to_rational() {
-            ratio.fract().into()
+            (&ratio - ratio.floor()).into()
         } else {
             let mut interval_shrinker = self.interval_shrinker();
             loop {
@@ -535,7 +535,7 @@ impl RealAlgebraicNumber {
     /// returns `self - self.floor()`
     pub fn fract(&self) -> Self {
         if let Some(ratio) = self.to_rational() {
-            ratio.fract().into()
+            (&ratio - ratio.floor()).into()
         } else {
             self.clone().into_fract()
         }
-- 
2.43.0


From 8aabf5aafe19ad68fdcb8ee39093c82594bbf169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:35 +0000
Subject: [PATCH 15/15] fix: the reciprocal of an irrational number keeps an
 isolating interval and a positive leading coefficient

---
 src/algebraic_numbers.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/algebraic_numbers.rs b/src/algebraic_numbers.rs
index 1c77675..a46a5d3 100644
--- a/src/algebraic_numbers.rs
+++ b/src/algebraic_numbers.rs
@@ -640,19 +640,23 @@ impl RealAlgebraicNumber {
             }
             return Some(value.recip().into());
         }
+        let minimal_polynomial = self.minimal_polynomial().iter().rev().collect();
+        struct RecipRootSelector<'a> {
+            interval_shrinker: IntervalShrinker<'a>,
+        }
+        impl RootSelector for RecipRootSelector<'_> {
+            fn get_interval(&self) -> DyadicFractionInterval {
+                self.interval_shrinker.interval.recip()
+            }
+            fn shrink_interval(&mut self) {
+                self.interval_shrinker.shrink();
+            }
+        }
         let mut value = self.clone();
-        value
+        let (_, interval_shrinker) = value
             .remove_zero_from_interval()
             .expect("known to be non-zero");
-        let RealAlgebraicNumberData {
-            minimal_polynomial,
-            interval,
-        } = value.into_data();
-        let minimal_polynomial = minimal_polynomial.into_iter().rev().collect();
-        Some(RealAlgebraicNumber::new_unchecked(
-            minimal_polynomial,
-            interval.recip(),
-        ))
+        Some(RecipRootSelector { interval_shrinker }.select_root(minimal_polynomial))
     }
     pub fn recip(&self) -> Self {
         self.checked_recip()
-- 
2.43.0

