From 6bbf51dbb11d88b69b1bee66c5cf7ea6a137f662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:20:57 +0000
Subject: [PATCH 01/40] fix: Complex::pow no longer overflows on the most
 negative exponent

---
 crates/logicaffeine_base/src/numeric.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/crates/logicaffeine_base/src/numeric.rs b/crates/logicaffeine_base/src/numeric.rs
index d184d12..072e12a 100644
--- a/crates/logicaffeine_base/src/numeric.rs
+++ b/crates/logicaffeine_base/src/numeric.rs
@@ -1200,12 +1200,10 @@ impl Complex {
     /// `self` raised to an integer power. Negative exponents take the reciprocal
     /// first; `None` only for zero raised to a negative power. `0^0 == 1`.
     pub fn pow(&self, exp: i32) -> Option<Complex> {
-        if exp < 0 {
-            return self.recip()?.pow(-exp);
-        }
         let mut result = Complex::one();
-        let mut base = self.clone();
-        let mut e = exp as u32;
+        let mut base = if exp < 0 { self.recip()? } else { self.clone() };
+        // `unsigned_abs`, not negation: `-i32::MIN` does not fit an `i32`.
+        let mut e = exp.unsigned_abs();
         while e > 0 {
             if e & 1 == 1 {
                 result = result.mul(&base);
-- 
2.43.0


From fcb7bfbeaf574082853590127ffb8ec08cc5907e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:34:46 +0000
Subject: [PATCH 02/40] fix: a hybrid clock with an exhausted logical counter
 still issues a later timestamp

The counter is 32 bits and arrives from remote peers in recv. At u32::MAX the increment
overflowed, so a debug build panicked and a release build issued an earlier timestamp.
The carry now goes into the physical component.
---
 crates/logicaffeine_base/src/temporal.rs | 29 ++++++++++++++++--------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/crates/logicaffeine_base/src/temporal.rs b/crates/logicaffeine_base/src/temporal.rs
index 1d379b4..68bd97f 100644
--- a/crates/logicaffeine_base/src/temporal.rs
+++ b/crates/logicaffeine_base/src/temporal.rs
@@ -101,8 +101,11 @@ impl Hlc {
     /// does not move (a stall or backward jump) and resets to 0 when it does.
     pub fn tick(self, now_nanos: i64) -> Hlc {
         let physical = self.physical_nanos.max(now_nanos);
-        let logical = if physical == self.physical_nanos { self.logical + 1 } else { 0 };
-        Hlc { physical_nanos: physical, logical }
+        if physical == self.physical_nanos {
+            Hlc::after(physical, self.logical)
+        } else {
+            Hlc { physical_nanos: physical, logical: 0 }
+        }
     }
 
     /// Stamp the **receipt** of a message carrying timestamp `remote`, at local physical clock
@@ -110,16 +113,24 @@ impl Hlc {
     /// inputs (the HLC receive rule) so causality (`send → receive`) is always preserved.
     pub fn recv(self, remote: Hlc, now_nanos: i64) -> Hlc {
         let physical = self.physical_nanos.max(remote.physical_nanos).max(now_nanos);
-        let logical = if physical == self.physical_nanos && physical == remote.physical_nanos {
-            self.logical.max(remote.logical) + 1
+        if physical == self.physical_nanos && physical == remote.physical_nanos {
+            Hlc::after(physical, self.logical.max(remote.logical))
         } else if physical == self.physical_nanos {
-            self.logical + 1
+            Hlc::after(physical, self.logical)
         } else if physical == remote.physical_nanos {
-            remote.logical + 1
+            Hlc::after(physical, remote.logical)
         } else {
-            0
-        };
-        Hlc { physical_nanos: physical, logical }
+            Hlc { physical_nanos: physical, logical: 0 }
+        }
+    }
+
+    /// The next timestamp after `(physical, logical)`: the counter increments, and an exhausted
+    /// counter carries into the physical component so the order stays strict.
+    fn after(physical: i64, logical: u32) -> Hlc {
+        match logical.checked_add(1) {
+            Some(logical) => Hlc { physical_nanos: physical, logical },
+            None => Hlc { physical_nanos: physical + 1, logical: 0 },
+        }
     }
 }
 
-- 
2.43.0


From c95da5f8ac3f00ecee889a56d68b2409c53a3deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:34:46 +0000
Subject: [PATCH 03/40] fix: Julian calendar conversion floors its divisions
 for years before -4800

Truncating division made the day number off by one and the inverse return month days
such as 4294967267 once the shifted year or day count was negative.
---
 crates/logicaffeine_base/src/temporal.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/logicaffeine_base/src/temporal.rs b/crates/logicaffeine_base/src/temporal.rs
index 68bd97f..ebe0780 100644
--- a/crates/logicaffeine_base/src/temporal.rs
+++ b/crates/logicaffeine_base/src/temporal.rs
@@ -959,14 +959,14 @@ pub fn jdn_from_julian(year: i64, month: u32, day: u32) -> i64 {
     let a = (14 - month as i64) / 12;
     let y = year + 4800 - a;
     let m = month as i64 + 12 * a - 3;
-    day as i64 + (153 * m + 2) / 5 + 365 * y + y / 4 - 32083
+    day as i64 + (153 * m + 2) / 5 + 365 * y + y.div_euclid(4) - 32083
 }
 
 /// The inverse of [`jdn_from_julian`]: the **Julian-calendar** `(year, month, day)` of a JDN.
 pub fn julian_from_jdn(jdn: i64) -> (i64, u32, u32) {
     let c = jdn + 32082;
-    let d = (4 * c + 3) / 1461;
-    let e = c - (1461 * d) / 4;
+    let d = (4 * c + 3).div_euclid(1461);
+    let e = c - (1461 * d).div_euclid(4);
     let m = (5 * e + 2) / 153;
     let day = (e - (153 * m + 2) / 5 + 1) as u32;
     let month = (m + 3 - 12 * (m / 10)) as u32;
-- 
2.43.0


From 66866bc8d767705ab730cabced7917e6f2725b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:34:46 +0000
Subject: [PATCH 04/40] fix: civil date-time to nanoseconds no longer overflows
 on intermediate results

Instants on the first representable day did not convert back, parse_rfc3339 overflowed on
years past 2262 instead of rejecting them, and months_between overflowed when the candidate
end date lay past the last instant.
---
 crates/logicaffeine_base/src/temporal.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/logicaffeine_base/src/temporal.rs b/crates/logicaffeine_base/src/temporal.rs
index ebe0780..ce7dbb4 100644
--- a/crates/logicaffeine_base/src/temporal.rs
+++ b/crates/logicaffeine_base/src/temporal.rs
@@ -265,9 +265,15 @@ pub fn civil_from_unix_nanos(ns: i64) -> CivilDateTime {
 
 /// The inverse: the SmoothUTC instant (nanoseconds since the epoch) of a civil date-time.
 pub fn unix_nanos_from_civil(dt: CivilDateTime) -> i64 {
+    wide_nanos_from_civil(dt) as i64
+}
+
+/// [`unix_nanos_from_civil`] before narrowing: the first representable day starts before the first
+/// representable instant, and four-digit years reach well past the last one.
+fn wide_nanos_from_civil(dt: CivilDateTime) -> i128 {
     let days = days_from_civil(dt.year, dt.month, dt.day);
     let secs = dt.hour as i64 * 3600 + dt.minute as i64 * 60 + dt.second as i64;
-    days * NANOS_PER_DAY + secs * NANOS_PER_SECOND + dt.nanosecond as i64
+    days as i128 * NANOS_PER_DAY as i128 + secs as i128 * NANOS_PER_SECOND as i128 + dt.nanosecond as i128
 }
 
 /// A UTC-offset transition: from `at_unix_seconds` (a UTC instant) onward, the zone's local time is
@@ -549,7 +555,7 @@ pub fn months_between(a_nanos: i64, b_nanos: i64) -> i64 {
     let mut months = (b.year - a.year) * 12 + (b.month as i64 - a.month as i64);
     // Matching only year+month can overshoot by the day/time-of-day; if `a + months` lands after `b`
     // the final month has not completed, so step back one. (At most one correction is ever needed.)
-    if unix_nanos_from_civil(add_span(a, months, 0)) > b_nanos {
+    if wide_nanos_from_civil(add_span(a, months, 0)) > b_nanos as i128 {
         months -= 1;
     }
     months
@@ -862,7 +868,7 @@ pub fn parse_rfc3339(s: &str) -> Option<i64> {
         return None; // trailing garbage
     }
     let civil = CivilDateTime { year, month, day, hour, minute, second, nanosecond };
-    Some(unix_nanos_from_civil(civil) - offset_seconds * NANOS_PER_SECOND)
+    i64::try_from(wide_nanos_from_civil(civil) - offset_seconds as i128 * NANOS_PER_SECOND as i128).ok()
 }
 
 /// True if `year` is a leap year in the proleptic **Gregorian** calendar (every 4th year, except
-- 
2.43.0


From 4f8c717025f09df1c44133a335bdf218ac02cf7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:34:46 +0000
Subject: [PATCH 05/40] fix: parse_duration rejects fractions too long to scale
 instead of overflowing

---
 crates/logicaffeine_base/src/temporal.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/logicaffeine_base/src/temporal.rs b/crates/logicaffeine_base/src/temporal.rs
index ce7dbb4..04f7531 100644
--- a/crates/logicaffeine_base/src/temporal.rs
+++ b/crates/logicaffeine_base/src/temporal.rs
@@ -732,9 +732,9 @@ pub fn parse_duration(s: &str) -> Option<i64> {
             let frac_val: i128 = frac_str.parse().ok()?;
             let mut denom: i128 = 1;
             for _ in 0..frac_str.len() {
-                denom *= 10;
+                denom = denom.checked_mul(10)?;
             }
-            total = total.checked_add(frac_val * unit_nanos / denom)?;
+            total = total.checked_add(frac_val.checked_mul(unit_nanos)? / denom)?;
         }
         saw_any = true;
     }
-- 
2.43.0


From 4dfb51df66d4121383f0c65168ccec0846d06cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:42:03 +0000
Subject: [PATCH 06/40] fix: Lanes16Word8::shr_bytes takes the count modulo 8
 like Word8::shr instead of overflowing

---
 crates/logicaffeine_base/src/word.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/logicaffeine_base/src/word.rs b/crates/logicaffeine_base/src/word.rs
index 74f71b8..486a4ad 100644
--- a/crates/logicaffeine_base/src/word.rs
+++ b/crates/logicaffeine_base/src/word.rs
@@ -971,7 +971,7 @@ impl Lanes16Word8 {
     pub fn shr_bytes(self, n: u32) -> Self {
         let mut r = [0u8; 16];
         for i in 0..16 {
-            r[i] = self.0[i] >> n;
+            r[i] = self.0[i].wrapping_shr(n);
         }
         Self(r)
     }
-- 
2.43.0


From c07f8cc7fb2412039f71d3c3ba8e4760a659a31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:59:11 +0000
Subject: [PATCH 07/40] fix: keep clauses added after a solve effective in
 later solves

---
 crates/logicaffeine_proof/src/cdcl.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/logicaffeine_proof/src/cdcl.rs b/crates/logicaffeine_proof/src/cdcl.rs
index 885965c..3d5ce5c 100644
--- a/crates/logicaffeine_proof/src/cdcl.rs
+++ b/crates/logicaffeine_proof/src/cdcl.rs
@@ -707,6 +707,10 @@ impl Solver {
                 return;
             }
         }
+        // A clause may arrive after an earlier solve: leave that search, and revisit the
+        // top-level facts so the new clause's watches see the ones that falsify it.
+        self.backtrack_to(0);
+        self.qhead = 0;
         self.add_clause_raw(lits, false);
     }
 
-- 
2.43.0


From 1b29c81769a6852c2c1ea4a9a4c36e39d04cd872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:59:11 +0000
Subject: [PATCH 08/40] fix: saturating a constraint of negative degree no
 longer inverts its coefficients

---
 crates/logicaffeine_proof/src/pseudo_boolean.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/logicaffeine_proof/src/pseudo_boolean.rs b/crates/logicaffeine_proof/src/pseudo_boolean.rs
index f3d8544..4240908 100644
--- a/crates/logicaffeine_proof/src/pseudo_boolean.rs
+++ b/crates/logicaffeine_proof/src/pseudo_boolean.rs
@@ -118,13 +118,13 @@ impl PbConstraint {
         }
     }
 
-    /// **Saturation** — clamp every coefficient to the degree (`min(aᵢ, degree)`). A single 0/1
+    /// **Saturation** — clamp every coefficient to the degree (`min(aᵢ, max(degree, 0))`). A single 0/1
     /// variable can contribute at most `degree` toward the bound, so the excess is redundant. Sound,
     /// and it keeps coefficients from blowing up across many additions.
     pub fn saturate(&self) -> PbConstraint {
         let d = self.degree;
         PbConstraint {
-            terms: self.terms.iter().map(|(&v, &(c, s))| (v, (c.min(d), s))).collect(),
+            terms: self.terms.iter().map(|(&v, &(c, s))| (v, (c.min(d.max(0)), s))).collect(),
             degree: d,
         }
     }
-- 
2.43.0


From c8fe3c6789a55fee10753a3eb3d92b8c2595b223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:00:00 +0000
Subject: [PATCH 09/40] fix: unifying quantified formulas rejects bindings that
 capture a bound variable

---
 crates/logicaffeine_proof/src/unify.rs | 34 +++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/crates/logicaffeine_proof/src/unify.rs b/crates/logicaffeine_proof/src/unify.rs
index bbd3df6..8e91a7f 100644
--- a/crates/logicaffeine_proof/src/unify.rs
+++ b/crates/logicaffeine_proof/src/unify.rs
@@ -1321,14 +1321,15 @@ fn unify_exprs_with_subst(
 
             // Create substitutions for each bound variable
             let subst1: Substitution = [(v1.clone(), fresh.clone())].into_iter().collect();
-            let subst2: Substitution = [(v2.clone(), fresh)].into_iter().collect();
+            let subst2: Substitution = [(v2.clone(), fresh.clone())].into_iter().collect();
 
             // Apply substitutions to bodies
             let body1_renamed = apply_subst_to_expr(b1, &subst1);
             let body2_renamed = apply_subst_to_expr(b2, &subst2);
 
             // Recursively unify the renamed bodies
-            unify_exprs_with_subst(&body1_renamed, &body2_renamed, subst)
+            unify_exprs_with_subst(&body1_renamed, &body2_renamed, subst)?;
+            check_no_escape(&fresh, subst, v1, v2)
         }
 
         // Lambda expressions: Alpha-equivalence - λx.P(x) ≡ λy.P(y)
@@ -1339,10 +1340,11 @@ fn unify_exprs_with_subst(
             // Same alpha-renaming technique as quantifiers
             let fresh = fresh_alpha_constant();
             let subst1: Substitution = [(v1.clone(), fresh.clone())].into_iter().collect();
-            let subst2: Substitution = [(v2.clone(), fresh)].into_iter().collect();
+            let subst2: Substitution = [(v2.clone(), fresh.clone())].into_iter().collect();
             let body1_renamed = apply_subst_to_expr(b1, &subst1);
             let body2_renamed = apply_subst_to_expr(b2, &subst2);
-            unify_exprs_with_subst(&body1_renamed, &body2_renamed, subst)
+            unify_exprs_with_subst(&body1_renamed, &body2_renamed, subst)?;
+            check_no_escape(&fresh, subst, v1, v2)
         }
 
         // Application
@@ -1385,7 +1387,7 @@ fn unify_exprs_with_subst(
             // Alpha-equivalence: generate fresh constant for event variable
             let fresh = fresh_alpha_constant();
             let subst1: Substitution = [(e1.clone(), fresh.clone())].into_iter().collect();
-            let subst2: Substitution = [(e2.clone(), fresh)].into_iter().collect();
+            let subst2: Substitution = [(e2.clone(), fresh.clone())].into_iter().collect();
 
             // Unify roles pairwise with alpha-renamed event variables
             for ((role1, term1), (role2, term2)) in r1.iter().zip(r2.iter()) {
@@ -1401,7 +1403,7 @@ fn unify_exprs_with_subst(
                 let t2_renamed = apply_subst_to_term(term2, &subst2);
                 unify_terms_with_subst(&t1_renamed, &t2_renamed, subst)?;
             }
-            Ok(())
+            check_no_escape(&fresh, subst, e1, e2)
         }
 
         // Temporal operators: Past(P), Future(P)
@@ -1443,6 +1445,26 @@ fn unify_exprs_with_subst(
     }
 }
 
+/// Reject a binding that captured the fresh constant standing for a bound variable: outside
+/// the binder that constant means nothing, so such a binding unifies nothing.
+fn check_no_escape(fresh: &ProofTerm, subst: &Substitution, left: &str, right: &str) -> ProofResult<()> {
+    fn mentions(t: &ProofTerm, c: &ProofTerm) -> bool {
+        match t {
+            ProofTerm::Function(_, args) | ProofTerm::Group(args) => {
+                args.iter().any(|a| mentions(a, c))
+            }
+            t => t == c,
+        }
+    }
+    if subst.values().any(|t| mentions(t, fresh)) {
+        return Err(ProofError::SymbolMismatch {
+            left: left.to_string(),
+            right: right.to_string(),
+        });
+    }
+    Ok(())
+}
+
 /// Apply a substitution to an expression.
 ///
 /// Recursively replaces variables in terms within the expression according
-- 
2.43.0


From 560231b729d28ed4e85f4c3b424a77f3a5169e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:10:41 +0000
Subject: [PATCH 10/40] fix: text indexing counts characters, not bytes, after
 a multi-byte character

---
 crates/logicaffeine_data/src/indexing.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/logicaffeine_data/src/indexing.rs b/crates/logicaffeine_data/src/indexing.rs
index 04a72a2..b7965aa 100644
--- a/crates/logicaffeine_data/src/indexing.rs
+++ b/crates/logicaffeine_data/src/indexing.rs
@@ -164,10 +164,10 @@ impl LogosIndex<i64> for String {
         } else {
             resolve_logos_index(index, self.chars().count())
         };
-        match self.as_bytes().get(idx) {
-            Some(&b) if b.is_ascii() => {
-                // Fast path: ASCII byte
-                String::from(b as char)
+        match self.as_bytes().get(..=idx) {
+            Some(prefix) if prefix.is_ascii() => {
+                // Fast path: byte offset == char offset only while everything up to it is ASCII
+                String::from(prefix[idx] as char)
             }
             _ => {
                 // Slow path: Unicode or out of bounds
@@ -198,8 +198,8 @@ impl LogosGetChar for String {
         } else {
             resolve_logos_index(index, self.chars().count())
         };
-        match self.as_bytes().get(idx) {
-            Some(&b) if b.is_ascii() => b as char,
+        match self.as_bytes().get(..=idx) {
+            Some(prefix) if prefix.is_ascii() => prefix[idx] as char,
             _ => {
                 self.chars().nth(idx)
                     .unwrap_or_else(|| panic!(
-- 
2.43.0


From d0e9385f8f935c67fa250d1fdc18d146a7f6aa2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:10:41 +0000
Subject: [PATCH 11/40] fix: the float 2^63 is not equal to any Int map key

---
 crates/logicaffeine_data/src/ops.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/logicaffeine_data/src/ops.rs b/crates/logicaffeine_data/src/ops.rs
index c418495..541ca1e 100644
--- a/crates/logicaffeine_data/src/ops.rs
+++ b/crates/logicaffeine_data/src/ops.rs
@@ -306,7 +306,7 @@ pub fn logos_pow_exact(a: impl Into<crate::types::LogosInt>, b: impl Into<crate:
 /// non-integral float (`1.5`) matches no Int key.
 #[inline(always)]
 pub fn logos_i64_key_of_f64(f: f64) -> Option<i64> {
-    if f.fract() == 0.0 && f >= i64::MIN as f64 && f <= i64::MAX as f64 {
+    if f.fract() == 0.0 && f >= i64::MIN as f64 && f < i64::MAX as f64 {
         Some(f as i64)
     } else {
         None
-- 
2.43.0


From 14a380e3d774e8643938b3abdb8cb6d5024707db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:10:42 +0000
Subject: [PATCH 12/40] fix: merging dot contexts drops cloud dots the clock
 already covers

---
 crates/logicaffeine_data/src/crdt/causal/context.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/logicaffeine_data/src/crdt/causal/context.rs b/crates/logicaffeine_data/src/crdt/causal/context.rs
index 69e007c..380b44a 100644
--- a/crates/logicaffeine_data/src/crdt/causal/context.rs
+++ b/crates/logicaffeine_data/src/crdt/causal/context.rs
@@ -74,6 +74,9 @@ impl DotContext {
         for replica in replicas {
             self.compact_replica(replica);
         }
+        // Drop dots the clock already covers, so equal contexts compare equal.
+        let clock = &self.clock;
+        self.cloud.retain(|d| d.counter > clock.get(d.replica));
     }
 
     /// Merge another context into this one.
-- 
2.43.0


From 0045032780f02948d9e2173e8bd683c76ab277bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:10:42 +0000
Subject: [PATCH 13/40] fix: a delta buffer refuses a peer that lacks an
 evicted delta

---
 crates/logicaffeine_data/src/crdt/delta_buffer.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/logicaffeine_data/src/crdt/delta_buffer.rs b/crates/logicaffeine_data/src/crdt/delta_buffer.rs
index b65def6..8959a5a 100644
--- a/crates/logicaffeine_data/src/crdt/delta_buffer.rs
+++ b/crates/logicaffeine_data/src/crdt/delta_buffer.rs
@@ -35,7 +35,7 @@ impl<D: Clone> DeltaBuffer<D> {
     pub fn push(&mut self, version: VClock, delta: D) {
         if self.deltas.len() >= self.max_size {
             if let Some((old_version, _)) = self.deltas.pop_front() {
-                self.oldest_version = old_version;
+                self.oldest_version.merge_vclock(&old_version);
             }
         }
         self.deltas.push_back((version, delta));
@@ -46,9 +46,12 @@ impl<D: Clone> DeltaBuffer<D> {
     /// Returns `None` if the version is older than or equal to our oldest evicted delta.
     /// Returns `Some(vec![])` if the peer is up-to-date.
     pub fn deltas_since(&self, version: &VClock) -> Option<Vec<D>> {
-        // If we've evicted deltas and the peer is at or behind what we evicted,
-        // we can't help them catch up (they need the evicted delta).
-        if self.oldest_version != VClock::new() && self.oldest_version.dominates(version) {
+        // If we've evicted deltas and the peer is not strictly past what we evicted
+        // (behind it or concurrent with it), we can't help them catch up (they need
+        // the evicted delta).
+        if self.oldest_version != VClock::new()
+            && (self.oldest_version.dominates(version) || !version.dominates(&self.oldest_version))
+        {
             return None;
         }
 
-- 
2.43.0


From 21d595359f7fcb8ae39911f621f72b58e7648ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:20:33 +0000
Subject: [PATCH 14/40] fix: guard recursion only through constructor fields
 that yield subterms

The structural-recursion guard counted an inductive's uniform parameters among
the variables a match case binds, so an ordinary function argument of the case
was taken for a subterm. It also accepted an application of any field, even a
field whose type does not return the inductive. Both kernels accepted looping
fixpoints, and so proofs of False.
---
 crates/logicaffeine_kernel/src/recheck.rs     | 45 ++++++------
 crates/logicaffeine_kernel/src/termination.rs | 68 ++++++++++++++++---
 2 files changed, 80 insertions(+), 33 deletions(-)

diff --git a/crates/logicaffeine_kernel/src/recheck.rs b/crates/logicaffeine_kernel/src/recheck.rs
index 676612c..f9b0eca 100644
--- a/crates/logicaffeine_kernel/src/recheck.rs
+++ b/crates/logicaffeine_kernel/src/recheck.rs
@@ -22,7 +22,7 @@
 //! The re-checker never reports a term as independently verified unless it actually
 //! verified every part of it.
 
-use std::collections::{HashMap, HashSet};
+use std::collections::HashMap;
 
 use crate::term::{int_lit, lit_bigint, Literal, Term, Universe};
 use crate::Context;
@@ -1010,14 +1010,6 @@ fn level_of(depth: usize, k: usize) -> Option<usize> {
     depth.checked_sub(1)?.checked_sub(k)
 }
 
-/// Count the leading `Π` parameters of a (named) constructor type — its arity.
-fn count_pi_named(t: &Term) -> usize {
-    match t {
-        Term::Pi { body_type, .. } => 1 + count_pi_named(body_type),
-        _ => 0,
-    }
-}
-
 /// Locate a fixpoint body's structural parameter: peel the λ-telescope from `base_depth`,
 /// pick the scrutinee of the innermost `match` if inductive-typed (else the first
 /// inductive-typed binder). Returns the parameter's LEVEL, its inductive name, the body
@@ -1064,7 +1056,7 @@ fn check_terminates(genv: &Context, body: &Db, fix_level: usize) -> RResult<()>
         locate_struct(genv, body, fix_level + 1)?;
     let mut fix_positions = HashMap::new();
     fix_positions.insert(fix_level, struct_pos);
-    guard(genv, guard_body, &fix_positions, struct_level, &ind, &HashSet::new(), struct_level + 1)
+    guard(genv, guard_body, &fix_positions, struct_level, &ind, &HashMap::new(), struct_level + 1)
 }
 
 /// Verify a MUTUAL block of `n` fixpoint bodies terminates. The `n` names occupy levels
@@ -1089,7 +1081,7 @@ fn check_terminates_mutual(genv: &Context, defs: &[Db], base: usize) -> RResult<
             &fix_positions,
             *struct_level,
             ind,
-            &HashSet::new(),
+            &HashMap::new(),
             struct_level + 1,
         )?;
     }
@@ -1098,15 +1090,16 @@ fn check_terminates_mutual(genv: &Context, defs: &[Db], base: usize) -> RResult<
 
 /// Walk `term` (at `depth`) checking every recursive call — to ANY block member whose
 /// level → structural-position mapping is in `fix_positions` — applies a structurally-
-/// smaller argument (a variable whose level is in `smaller`, the set of constructor-bound
-/// variables from matching on the structural parameter `struct_level` of `struct_type`).
+/// smaller argument (a variable whose level is in `smaller`, the constructor-bound variables
+/// from matching on the structural parameter `struct_level` of `struct_type`, each with
+/// whether it is a function INTO that type, so that applying it yields a subterm).
 fn guard(
     genv: &Context,
     term: &Db,
     fix_positions: &HashMap<usize, usize>,
     struct_level: usize,
     struct_type: &str,
-    smaller: &HashSet<usize>,
+    smaller: &HashMap<usize, bool>,
     depth: usize,
 ) -> RResult<()> {
     match term {
@@ -1121,6 +1114,7 @@ fn guard(
                     // main kernel's `verify_structural_arg_smaller`).
                     match args.get(pos) {
                         Some(arg) => {
+                            let applied = matches!(arg, Db::App(..));
                             let mut h: &Db = arg;
                             while let Db::App(f, _) = h {
                                 h = f;
@@ -1128,7 +1122,8 @@ fn guard(
                             match h {
                                 Db::Var(j)
                                     if level_of(depth, *j)
-                                        .is_some_and(|l| smaller.contains(&l)) => {}
+                                        .and_then(|l| smaller.get(&l))
+                                        .is_some_and(|function| *function || !applied) => {}
                                 Db::Var(_) => {
                                     return Err(ReCheckError::ill(
                                         "recursive call on an argument not headed by a \
@@ -1233,22 +1228,24 @@ fn guard_match_cases(
     struct_type: &str,
     fix_positions: &HashMap<usize, usize>,
     struct_level: usize,
-    smaller: &HashSet<usize>,
+    smaller: &HashMap<usize, bool>,
     depth: usize,
 ) -> RResult<()> {
-    let arities: Vec<usize> =
-        genv.get_constructors(struct_type).iter().map(|(_, t)| count_pi_named(t)).collect();
+    let constructors = genv.get_constructors(struct_type);
     for (i, case) in cases.iter().enumerate() {
-        let arity = arities.get(i).copied().unwrap_or(0);
+        let fields = constructors.get(i).map_or(Vec::new(), |(_, t)| {
+            crate::termination::constructor_fields(genv, struct_type, t)
+        });
         let mut smaller2 = smaller.clone();
         let mut cur = case;
         let mut d = depth;
-        // Peel up to `arity` λs (a parametric inductive's case binds fewer than its
-        // constructor's total parameter count — type parameters are fixed), marking each
-        // bound variable's level as structurally smaller.
-        for _ in 0..arity {
+        // Peel one λ per value argument (the inductive's uniform parameters are fixed by
+        // the discriminant, so a case does not bind them), marking each bound variable's
+        // level as structurally smaller.
+        for field in fields {
             if let Db::Lam(_, inner) = cur {
-                smaller2.insert(d);
+                let function = crate::termination::is_function_into(genv, struct_type, field);
+                smaller2.insert(d, function);
                 cur = inner;
                 d += 1;
             } else {
diff --git a/crates/logicaffeine_kernel/src/termination.rs b/crates/logicaffeine_kernel/src/termination.rs
index e2c7824..17cd36a 100644
--- a/crates/logicaffeine_kernel/src/termination.rs
+++ b/crates/logicaffeine_kernel/src/termination.rs
@@ -34,6 +34,9 @@ struct GuardContext {
     struct_type: String,
     /// Variables known to be structurally smaller than struct_param
     smaller_than: HashSet<String>,
+    /// The smaller variables whose declared type is a function INTO the structural
+    /// inductive (or a block sibling): only applying one of these yields a subterm.
+    smaller_functions: HashSet<String>,
     /// False once an inner binder has shadowed `struct_param`. A `match` on that
     /// name then refers to the shadowing binding, not the structural argument, so
     /// it must NOT be treated as the guarding match.
@@ -58,6 +61,7 @@ pub fn check_termination(ctx: &Context, fix_name: &str, body: &Term) -> KernelRe
         struct_param,
         struct_type,
         smaller_than: HashSet::new(),
+        smaller_functions: HashSet::new(),
         struct_param_live: true,
         shadowed_fix: HashSet::new(),
     };
@@ -100,6 +104,7 @@ pub fn check_termination_mutual(ctx: &Context, defs: &[(String, Term)]) -> Kerne
             struct_param,
             struct_type,
             smaller_than: HashSet::new(),
+            smaller_functions: HashSet::new(),
             struct_param_live: true,
             shadowed_fix: HashSet::new(),
         };
@@ -187,10 +192,12 @@ fn enter_binder(guard_ctx: &GuardContext, param: &str) -> GuardContext {
         struct_param: guard_ctx.struct_param.clone(),
         struct_type: guard_ctx.struct_type.clone(),
         smaller_than: guard_ctx.smaller_than.clone(),
+        smaller_functions: guard_ctx.smaller_functions.clone(),
         struct_param_live: guard_ctx.struct_param_live,
         shadowed_fix: guard_ctx.shadowed_fix.clone(),
     };
     child.smaller_than.remove(param);
+    child.smaller_functions.remove(param);
     if param == guard_ctx.struct_param {
         child.struct_param_live = false;
     }
@@ -381,7 +388,17 @@ fn verify_structural_arg_smaller(guard_ctx: &GuardContext, first_arg: &Term) ->
     while let Term::App(f, _) = head {
         head = f;
     }
+    let applied = !std::ptr::eq(head, first_arg);
     match head {
+        Term::Var(arg_name) if applied && !guard_ctx.smaller_functions.contains(arg_name) => {
+            Err(KernelError::TerminationViolation {
+                fix_name: guard_ctx.block_name(),
+                reason: format!(
+                    "Recursive call on an application of '{}', which is not a function into the structural type",
+                    arg_name
+                ),
+            })
+        }
         Term::Var(arg_name) if guard_ctx.smaller_than.contains(arg_name) => Ok(()),
         Term::Var(arg_name) => Err(KernelError::TerminationViolation {
             fix_name: guard_ctx.block_name(),
@@ -409,13 +426,15 @@ fn check_match_cases_guarded(
     let constructors = ctx.get_constructors(&guard_ctx.struct_type);
 
     for (case, (ctor_name, ctor_type)) in cases.iter().zip(constructors.iter()) {
-        // Count constructor parameters
-        let param_count = count_pi_params(ctor_type);
+        // The constructor's VALUE arguments. A case binds exactly these: the inductive's
+        // uniform parameters are fixed by the discriminant, so a further λ of the case is
+        // an ordinary function argument and NOT a subterm.
+        let fields = constructor_fields(ctx, &guard_ctx.struct_type, ctor_type);
 
         // Extract the smaller variables from this case
         // The case is typically: λx1. λx2. ... λxn. body
         // where x1..xn are the constructor parameters
-        let (smaller_vars, case_body) = extract_lambda_params(case, param_count);
+        let (smaller_vars, case_body) = extract_lambda_params(case, fields.len());
 
         // Create extended guard context with these variables as smaller
         let mut extended_ctx = GuardContext {
@@ -423,6 +442,7 @@ fn check_match_cases_guarded(
             struct_param: guard_ctx.struct_param.clone(),
             struct_type: guard_ctx.struct_type.clone(),
             smaller_than: guard_ctx.smaller_than.clone(),
+            smaller_functions: guard_ctx.smaller_functions.clone(),
             struct_param_live: guard_ctx.struct_param_live,
             shadowed_fix: guard_ctx.shadowed_fix.clone(),
         };
@@ -440,8 +460,13 @@ fn check_match_cases_guarded(
         // never admits a non-terminating fixpoint. `ctor_name`/`ctor_type` are
         // bound for the constructor-arity computation above.
         let _ = ctor_name;
-        for var in &smaller_vars {
+        for (var, field) in smaller_vars.iter().zip(fields.iter()) {
             extended_ctx.smaller_than.insert(var.clone());
+            if is_function_into(ctx, &guard_ctx.struct_type, field) {
+                extended_ctx.smaller_functions.insert(var.clone());
+            } else {
+                extended_ctx.smaller_functions.remove(var);
+            }
             // A constructor binder may reuse the name of the structural parameter
             // or the fixpoint; inside this case that name now refers to the
             // (smaller) bound variable, so the original meaning is shadowed.
@@ -460,11 +485,36 @@ fn check_match_cases_guarded(
     Ok(())
 }
 
-/// Count the number of Pi parameters in a type.
-fn count_pi_params(ty: &Term) -> usize {
-    match ty {
-        Term::Pi { body_type, .. } => 1 + count_pi_params(body_type),
-        _ => 0,
+/// The types of a constructor's value arguments — its Π telescope past the inductive's
+/// uniform parameters.
+pub(crate) fn constructor_fields<'a>(ctx: &Context, inductive: &str, ctor_type: &'a Term) -> Vec<&'a Term> {
+    let mut fields = Vec::new();
+    let mut current = ctor_type;
+    while let Term::Pi { param_type, body_type, .. } = current {
+        fields.push(param_type.as_ref());
+        current = body_type;
+    }
+    fields.split_off(ctx.inductive_num_params(inductive).min(fields.len()))
+}
+
+/// True if `ty` is a function type whose result is `inductive` (or a member of its mutual
+/// block). Strict positivity makes applying such a constructor field yield a subterm; a
+/// field of any other function type — `Π(X:Prop). X → X`, say — can return anything.
+pub(crate) fn is_function_into(ctx: &Context, inductive: &str, ty: &Term) -> bool {
+    let Term::Pi { body_type, .. } = ty else { return false };
+    let mut result = body_type.as_ref();
+    while let Term::Pi { body_type, .. } = result {
+        result = body_type;
+    }
+    while let Term::App(func, _) = result {
+        result = func;
+    }
+    match result {
+        Term::Global(name) => {
+            name == inductive
+                || ctx.mutual_block_of(inductive).is_some_and(|block| block.contains(name))
+        }
+        _ => false,
     }
 }
 
-- 
2.43.0


From 744f6fa9c8c6f8c6b926ded0e7686de810c0711a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:20:33 +0000
Subject: [PATCH 15/40] fix: reject an inductive hidden inside an application
 in its constructor type

A constructor type that is a beta-redex could carry a negative occurrence of
the inductive past the positivity check.
---
 crates/logicaffeine_kernel/src/positivity.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/crates/logicaffeine_kernel/src/positivity.rs b/crates/logicaffeine_kernel/src/positivity.rs
index c6d72ca..fdb90fa 100644
--- a/crates/logicaffeine_kernel/src/positivity.rs
+++ b/crates/logicaffeine_kernel/src/positivity.rs
@@ -87,10 +87,17 @@ fn check_strictly_positive(block: &[&str], constructor: &str, ty: &Term) -> Kern
             check_strictly_positive(block, constructor, body_type)
         }
 
-        // Application: check both parts
-        Term::App(func, arg) => {
-            check_strictly_positive(block, constructor, func)?;
-            check_strictly_positive(block, constructor, arg)
+        // Application: a block member may only head it, with none in the arguments. A
+        // redex such as `(λX. X → I) (I → False)` would otherwise hide a negative occurrence.
+        Term::App(..) => {
+            if !is_recursive_arg(block, ty) && occurs_in(block, ty) {
+                return Err(KernelError::PositivityViolation {
+                    inductive: block.join("/"),
+                    constructor: constructor.to_string(),
+                    reason: format!("'{}' occurs inside an application", block.join("/")),
+                });
+            }
+            Ok(())
         }
 
         // Lambda (unusual in types, but handle it)
-- 
2.43.0


From 58119a7d0396a7272f3092e445210db4a7c6550e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:20:34 +0000
Subject: [PATCH 16/40] fix: refuse to pattern-match the opaque primitive types

Int, Text and the other primitive domains are registered without constructors
although they have elements, so a match with no cases on a literal proved
anything, including False.
---
 crates/logicaffeine_kernel/src/context.rs      | 8 ++++++++
 crates/logicaffeine_kernel/src/recheck.rs      | 4 ++++
 crates/logicaffeine_kernel/src/type_checker.rs | 1 +
 3 files changed, 13 insertions(+)

diff --git a/crates/logicaffeine_kernel/src/context.rs b/crates/logicaffeine_kernel/src/context.rs
index 34f9b15..5714e31 100644
--- a/crates/logicaffeine_kernel/src/context.rs
+++ b/crates/logicaffeine_kernel/src/context.rs
@@ -410,6 +410,14 @@ impl Context {
         self.inductive_arity(name).saturating_sub(self.inductive_num_params(name))
     }
 
+    /// Whether `name` is an opaque domain — registered without constructors although it has
+    /// elements (literals, declared individuals). It must not be pattern-matched: a match
+    /// with no cases would treat it as empty.
+    pub fn is_opaque_domain(&self, name: &str) -> bool {
+        matches!(name, "Int" | "Float" | "Text" | "Duration" | "Date" | "Moment" | "Entity")
+            && self.get_constructors(name).is_empty()
+    }
+
     /// Register a constructor for an inductive type.
     ///
     /// The `ty` is the full type of the constructor
diff --git a/crates/logicaffeine_kernel/src/recheck.rs b/crates/logicaffeine_kernel/src/recheck.rs
index f9b0eca..46a8cea 100644
--- a/crates/logicaffeine_kernel/src/recheck.rs
+++ b/crates/logicaffeine_kernel/src/recheck.rs
@@ -1277,6 +1277,10 @@ fn infer_match(
         ))
     })?;
 
+    if genv.is_opaque_domain(&ind_name) {
+        return Err(ReCheckError::ill(format!("match on the opaque type {}", ind_name)));
+    }
+
     // 2. Parameter/index split: the first `p` type arguments are uniform parameters; any
     // remaining ones are INDICES the motive abstracts over (an indexed family like `Eq`).
     // `indexed == false` is the ordinary eliminator, handled exactly as before.
diff --git a/crates/logicaffeine_kernel/src/type_checker.rs b/crates/logicaffeine_kernel/src/type_checker.rs
index a8b31e1..13042d5 100644
--- a/crates/logicaffeine_kernel/src/type_checker.rs
+++ b/crates/logicaffeine_kernel/src/type_checker.rs
@@ -180,6 +180,7 @@ pub fn infer_type(ctx: &Context, term: &Term) -> KernelResult<Term> {
             // motive application `(λb. …) true ⇝ False`) is still recognized.
             let disc_type = normalize(ctx, &infer_type(ctx, discriminant)?);
             let inductive_name = extract_inductive_name(ctx, &disc_type)
+                .filter(|name| !ctx.is_opaque_domain(name))
                 .ok_or_else(|| KernelError::NotAnInductive(format!("{}", disc_type)))?;
 
             // Parameter/index split. `num_params` leading arguments of the inductive are
-- 
2.43.0


From 93fe65632d91c96898f0ce2e55298d3bfd3f5884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:21:07 +0000
Subject: [PATCH 17/40] fix: accept a certificate only when the de Bruijn
 re-checker agrees

The main kernel treats a hole as a wildcard and resolves variables by name, so
a certificate with a hole or a reused binder name could claim False.
---
 crates/logicaffeine_kernel/src/certificate.rs | 14 +++++++++-----
 crates/logicaffeine_kernel/src/recheck.rs     | 19 +++++++++++++++++++
 2 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/crates/logicaffeine_kernel/src/certificate.rs b/crates/logicaffeine_kernel/src/certificate.rs
index 7f871bf..4ae18af 100644
--- a/crates/logicaffeine_kernel/src/certificate.rs
+++ b/crates/logicaffeine_kernel/src/certificate.rs
@@ -78,12 +78,16 @@ pub fn recheck(cert: &Certificate) -> Result<(), KernelError> {
     let inferred = infer_type(&ctx, &cert.proof_term)?;
 
     // ...and its type must be the claimed proposition.
-    if is_subtype(&ctx, &inferred, &cert.claimed_type) {
-        Ok(())
-    } else {
-        Err(KernelError::CertificationError(format!(
+    if !is_subtype(&ctx, &inferred, &cert.claimed_type) {
+        return Err(KernelError::CertificationError(format!(
             "certificate term proves a different proposition: has type {:?}, claims {:?}",
             inferred, cert.claimed_type
-        )))
+        )));
     }
+
+    // ...and the independent de Bruijn re-checker must concur: it knows no wildcards
+    // (`Hole`) and no binder names, so it cannot share a naming mistake with the main kernel.
+    crate::recheck::recheck_against(&ctx, &cert.proof_term, &cert.claimed_type).map_err(|why| {
+        KernelError::CertificationError(format!("the independent re-checker objects: {:?}", why))
+    })
 }
diff --git a/crates/logicaffeine_kernel/src/recheck.rs b/crates/logicaffeine_kernel/src/recheck.rs
index 46a8cea..58e60b1 100644
--- a/crates/logicaffeine_kernel/src/recheck.rs
+++ b/crates/logicaffeine_kernel/src/recheck.rs
@@ -1595,6 +1595,25 @@ pub fn recheck(ctx: &Context, term: &Term) -> RResult<Term> {
     Ok(from_db(&ty, 0))
 }
 
+/// Re-check `term` against a claimed type, which must itself be a well-formed type.
+///
+/// Works entirely on the de Bruijn representation, so neither a `Hole` (which the main
+/// kernel treats as a wildcard) nor a reused binder name can blur the comparison.
+pub fn recheck_against(ctx: &Context, term: &Term, claimed: &Term) -> RResult<()> {
+    let claimed = to_db(claimed, &mut Vec::new())?;
+    infer_sort(ctx, &[], &claimed)?;
+    let inferred = infer(ctx, &[], &to_db(term, &mut Vec::new())?)?;
+    if is_sub(ctx, &[], &inferred, &claimed) {
+        Ok(())
+    } else {
+        Err(ReCheckError::ill(format!(
+            "term has type {}, not {}",
+            from_db(&inferred, 0),
+            from_db(&claimed, 0)
+        )))
+    }
+}
+
 /// The verdict of cross-checking a term with BOTH kernels.
 #[derive(Debug, Clone, PartialEq)]
 pub enum DoubleCheck {
-- 
2.43.0


From 33f07141b46e421df938ea38cffbd2725fca0d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:21:31 +0000
Subject: [PATCH 18/40] fix: rename a binder that would capture a name used in
 a local variable's type

Type inference looked variables up by name, so under an inner binder reusing a
type variable's name an outer variable got the inner type. The identity-like
term (A: Prop)(x: A)(A: Prop) => x was typed as proving any proposition.
---
 crates/logicaffeine_kernel/src/context.rs     |  7 +++
 .../logicaffeine_kernel/src/type_checker.rs   | 49 ++++++++++++++-----
 2 files changed, 44 insertions(+), 12 deletions(-)

diff --git a/crates/logicaffeine_kernel/src/context.rs b/crates/logicaffeine_kernel/src/context.rs
index 5714e31..44e3e8f 100644
--- a/crates/logicaffeine_kernel/src/context.rs
+++ b/crates/logicaffeine_kernel/src/context.rs
@@ -234,6 +234,13 @@ impl Context {
         self.bindings.get(name).map(|t| t.as_ref())
     }
 
+    /// Whether entering a binder called `name` would capture: `name` is already bound
+    /// locally and the type of some local variable mentions it.
+    pub(crate) fn captures(&self, name: &str) -> bool {
+        self.bindings.contains_key(name)
+            && self.bindings.values().any(|ty| crate::type_checker::occurs_free(ty, name))
+    }
+
     /// Create a new context extended with an additional local binding.
     ///
     /// Does not mutate the original context.
diff --git a/crates/logicaffeine_kernel/src/type_checker.rs b/crates/logicaffeine_kernel/src/type_checker.rs
index 13042d5..57f2562 100644
--- a/crates/logicaffeine_kernel/src/type_checker.rs
+++ b/crates/logicaffeine_kernel/src/type_checker.rs
@@ -94,8 +94,9 @@ pub fn infer_type(ctx: &Context, term: &Term) -> KernelResult<Term> {
             let a_sort = infer_sort(ctx, param_type)?;
 
             // B must be a type in the extended context
-            let extended_ctx = ctx.extend(param, (**param_type).clone());
-            let b_sort = infer_sort(&extended_ctx, body_type)?;
+            let (param, body_type) = open_binder(ctx, param, body_type);
+            let extended_ctx = ctx.extend(&param, (**param_type).clone());
+            let b_sort = infer_sort(&extended_ctx, &body_type)?;
 
             // Product formation (CIC). `Prop` is **impredicative**: a Π whose
             // codomain is a proposition is itself a proposition, no matter the
@@ -119,12 +120,13 @@ pub fn infer_type(ctx: &Context, term: &Term) -> KernelResult<Term> {
             let _ = infer_sort(ctx, param_type)?;
 
             // Infer body type in extended context
-            let extended_ctx = ctx.extend(param, (**param_type).clone());
-            let body_type = infer_type(&extended_ctx, body)?;
+            let (param, body) = open_binder(ctx, param, body);
+            let extended_ctx = ctx.extend(&param, (**param_type).clone());
+            let body_type = infer_type(&extended_ctx, &body)?;
 
             // The lambda has a Pi type
             Ok(Term::Pi {
-                param: param.clone(),
+                param,
                 param_type: param_type.clone(),
                 body_type: Box::new(body_type),
             })
@@ -397,12 +399,13 @@ fn infer_fix_type_structurally(ctx: &Context, term: &Term) -> KernelResult<Term>
             let _ = infer_sort(ctx, param_type)?;
 
             // Extend context and recurse into body
-            let extended = ctx.extend(param, (**param_type).clone());
-            let body_type = infer_fix_type_structurally(&extended, body)?;
+            let (param, body) = open_binder(ctx, param, body);
+            let extended = ctx.extend(&param, (**param_type).clone());
+            let body_type = infer_fix_type_structurally(&extended, &body)?;
 
             // Build Pi type
             Ok(Term::Pi {
-                param: param.clone(),
+                param,
                 param_type: param_type.clone(),
                 body_type: Box::new(body_type),
             })
@@ -490,14 +493,15 @@ fn check_type(ctx: &Context, term: &Term, expected: &Term) -> KernelResult<()> {
                 } = expected
                 {
                     // Check body in extended context using expected param type
-                    let extended_ctx = ctx.extend(param, (**expected_param_type).clone());
+                    let (param, body) = open_binder(ctx, param, body);
+                    let extended_ctx = ctx.extend(&param, (**expected_param_type).clone());
                     // Substitute in expected_body_type if param names differ
-                    let body_expected = if param != expected_param {
+                    let body_expected = if param != *expected_param {
                         substitute(expected_body_type, expected_param, &Term::Var(param.clone()))
                     } else {
                         (**expected_body_type).clone()
                     };
-                    return check_type(&extended_ctx, body, &body_expected);
+                    return check_type(&extended_ctx, &body, &body_expected);
                 }
             }
         }
@@ -905,7 +909,7 @@ pub fn substitute(body: &Term, var: &str, replacement: &Term) -> Term {
 }
 
 /// Whether `var` occurs free in `term` (binder-aware, short-circuiting).
-fn occurs_free(term: &Term, var: &str) -> bool {
+pub(crate) fn occurs_free(term: &Term, var: &str) -> bool {
     match term {
         Term::Var(name) => name == var,
         Term::Sort(_) | Term::Lit(_) | Term::Hole | Term::Global(_) | Term::Const { .. } => false,
@@ -1071,6 +1075,27 @@ fn freshen(
     fresh_name(param, &avoid)
 }
 
+/// Name a binder for the scope it opens: its own name, or — when a local variable's type
+/// still mentions an outer binding of that name — a fresh one, renamed through the body.
+fn open_binder<'t>(
+    ctx: &Context,
+    param: &str,
+    body: &'t Term,
+) -> (String, std::borrow::Cow<'t, Term>) {
+    if !ctx.captures(param) {
+        return (param.to_string(), std::borrow::Cow::Borrowed(body));
+    }
+    let mut avoid = std::collections::HashSet::new();
+    all_var_names(body, &mut avoid);
+    let mut fresh = fresh_name(param, &avoid);
+    while ctx.get(&fresh).is_some() {
+        avoid.insert(fresh);
+        fresh = fresh_name(param, &avoid);
+    }
+    let renamed = rename_var(body, param, &fresh);
+    (fresh, std::borrow::Cow::Owned(renamed))
+}
+
 /// Rename free occurrences of `from` to `to` in `term`. `to` must be globally
 /// fresh in `term`, so this rename cannot itself capture.
 fn rename_var(term: &Term, from: &str, to: &str) -> Term {
-- 
2.43.0


From c9eb42eab3cf311bd2a33259c570594a1d18fac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:21:40 +0000
Subject: [PATCH 19/40] fix: congruence closure notices applications added
 after a merge

A new application was registered with its operands rather than with their
class representatives and never compared with existing applications, so
equalities depended on the order of insertions and merges.
---
 crates/logicaffeine_kernel/src/cc.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/logicaffeine_kernel/src/cc.rs b/crates/logicaffeine_kernel/src/cc.rs
index e284db6..1842a86 100644
--- a/crates/logicaffeine_kernel/src/cc.rs
+++ b/crates/logicaffeine_kernel/src/cc.rs
@@ -102,10 +102,17 @@ impl EGraph {
         self.uf.make_set();
         self.use_list.push(Vec::new());
 
-        // Register in use lists for congruence detection
+        // Register in the use lists of the current class representatives, and join the
+        // class of an application that earlier merges already made congruent to this one
         if let ENode::App { func, arg } = &node {
-            self.use_list[*func].push(id);
-            self.use_list[*arg].push(id);
+            let func = self.uf.find(*func);
+            let arg = self.uf.find(*arg);
+            let uses = self.use_list[func].clone();
+            self.use_list[func].push(id);
+            self.use_list[arg].push(id);
+            if let Some(other) = uses.into_iter().find(|&u| self.congruent(id, u)) {
+                self.merge(id, other);
+            }
         }
 
         id
-- 
2.43.0


From 33ae4e31ea8755ee7c54647fe38d68fc83496c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:46:36 +0000
Subject: [PATCH 20/40] fix: guard recursive calls in binder annotations and
 surplus cases

---
 crates/logicaffeine_kernel/src/recheck.rs     | 46 ++++++++-----------
 crates/logicaffeine_kernel/src/termination.rs | 33 +++++++++++++
 2 files changed, 52 insertions(+), 27 deletions(-)

diff --git a/crates/logicaffeine_kernel/src/recheck.rs b/crates/logicaffeine_kernel/src/recheck.rs
index 58e60b1..3405f5b 100644
--- a/crates/logicaffeine_kernel/src/recheck.rs
+++ b/crates/logicaffeine_kernel/src/recheck.rs
@@ -1012,19 +1012,19 @@ fn level_of(depth: usize, k: usize) -> Option<usize> {
 
 /// Locate a fixpoint body's structural parameter: peel the λ-telescope from `base_depth`,
 /// pick the scrutinee of the innermost `match` if inductive-typed (else the first
-/// inductive-typed binder). Returns the parameter's LEVEL, its inductive name, the body
-/// just past it, and its argument POSITION in the telescope.
-fn locate_struct<'a>(
+/// inductive-typed binder). Returns the parameter's LEVEL, its inductive name and its
+/// argument POSITION in the telescope.
+fn locate_struct(
     genv: &Context,
-    body: &'a Db,
+    body: &Db,
     base_depth: usize,
-) -> RResult<(usize, String, &'a Db, usize)> {
-    let mut chain: Vec<(usize, Option<String>, &Db)> = Vec::new();
+) -> RResult<(usize, String, usize)> {
+    let mut chain: Vec<(usize, Option<String>)> = Vec::new();
     let mut cur = body;
     let mut depth = base_depth;
     while let Db::Lam(dom, inner) = cur {
         let dom_h = whnf(genv, dom);
-        chain.push((depth, extract_inductive(genv, &dom_h).map(|(n, _)| n), inner));
+        chain.push((depth, extract_inductive(genv, &dom_h).map(|(n, _)| n)));
         cur = inner;
         depth += 1;
     }
@@ -1039,24 +1039,23 @@ fn locate_struct<'a>(
     };
     let idx = scrutinee
         .filter(|&i| chain[i].1.is_some())
-        .or_else(|| chain.iter().position(|(_, ind, _)| ind.is_some()))
+        .or_else(|| chain.iter().position(|(_, ind)| ind.is_some()))
         .ok_or_else(|| {
             ReCheckError::ill(
                 "fixpoint has no inductive parameter for structural recursion".to_string(),
             )
         })?;
-    Ok((chain[idx].0, chain[idx].1.clone().unwrap(), chain[idx].2, idx))
+    Ok((chain[idx].0, chain[idx].1.clone().unwrap(), idx))
 }
 
 /// Verify the fixpoint `body` (with `rec` bound at level `fix_level`) terminates: locate
 /// the structural parameter and check that every recursive call decreases it. A single
 /// fixpoint is the one-entry case of the block guard.
 fn check_terminates(genv: &Context, body: &Db, fix_level: usize) -> RResult<()> {
-    let (struct_level, ind, guard_body, struct_pos) =
-        locate_struct(genv, body, fix_level + 1)?;
+    let (struct_level, ind, struct_pos) = locate_struct(genv, body, fix_level + 1)?;
     let mut fix_positions = HashMap::new();
     fix_positions.insert(fix_level, struct_pos);
-    guard(genv, guard_body, &fix_positions, struct_level, &ind, &HashMap::new(), struct_level + 1)
+    guard(genv, body, &fix_positions, struct_level, &ind, &HashMap::new(), fix_level + 1)
 }
 
 /// Verify a MUTUAL block of `n` fixpoint bodies terminates. The `n` names occupy levels
@@ -1068,22 +1067,14 @@ fn check_terminates_mutual(genv: &Context, defs: &[Db], base: usize) -> RResult<
     let n = defs.len();
     let base_depth = base + n;
     let mut fix_positions = HashMap::new();
-    let mut located: Vec<(usize, String, &Db)> = Vec::with_capacity(n);
+    let mut located: Vec<(usize, String)> = Vec::with_capacity(n);
     for (j, body) in defs.iter().enumerate() {
-        let (struct_level, ind, guard_body, struct_pos) = locate_struct(genv, body, base_depth)?;
+        let (struct_level, ind, struct_pos) = locate_struct(genv, body, base_depth)?;
         fix_positions.insert(base + j, struct_pos);
-        located.push((struct_level, ind, guard_body));
-    }
-    for (struct_level, ind, guard_body) in &located {
-        guard(
-            genv,
-            guard_body,
-            &fix_positions,
-            *struct_level,
-            ind,
-            &HashMap::new(),
-            struct_level + 1,
-        )?;
+        located.push((struct_level, ind));
+    }
+    for (body, (struct_level, ind)) in defs.iter().zip(&located) {
+        guard(genv, body, &fix_positions, *struct_level, ind, &HashMap::new(), base_depth)?;
     }
     Ok(())
 }
@@ -1243,7 +1234,8 @@ fn guard_match_cases(
         // the discriminant, so a case does not bind them), marking each bound variable's
         // level as structurally smaller.
         for field in fields {
-            if let Db::Lam(_, inner) = cur {
+            if let Db::Lam(dom, inner) = cur {
+                guard(genv, dom, fix_positions, struct_level, struct_type, &smaller2, d)?;
                 let function = crate::termination::is_function_into(genv, struct_type, field);
                 smaller2.insert(d, function);
                 cur = inner;
diff --git a/crates/logicaffeine_kernel/src/termination.rs b/crates/logicaffeine_kernel/src/termination.rs
index 17cd36a..a451084 100644
--- a/crates/logicaffeine_kernel/src/termination.rs
+++ b/crates/logicaffeine_kernel/src/termination.rs
@@ -19,6 +19,7 @@ use crate::error::{KernelError, KernelResult};
 use crate::term::Term;
 
 /// Context for termination checking.
+#[derive(Clone)]
 struct GuardContext {
     /// Each fixpoint name in the (possibly mutual) block → the ARGUMENT POSITION of its
     /// structural (decreasing) argument in a call. For a plain recursor the position is
@@ -67,9 +68,29 @@ pub fn check_termination(ctx: &Context, fix_name: &str, body: &Term) -> KernelRe
     };
 
     // Check all recursive calls are guarded
+    check_telescope_guarded(ctx, &guard_ctx, body, inner)?;
     check_guarded(ctx, &guard_ctx, inner)
 }
 
+/// Check the binder annotations of `body` up to and including the structural parameter's
+/// (`inner` is the body just past it): nothing is smaller there, so none may recurse.
+fn check_telescope_guarded(
+    ctx: &Context,
+    guard_ctx: &GuardContext,
+    body: &Term,
+    inner: &Term,
+) -> KernelResult<()> {
+    let mut scope = GuardContext { struct_param_live: false, ..guard_ctx.clone() };
+    let mut cur = body;
+    while !std::ptr::eq(cur, inner) {
+        let Term::Lambda { param, param_type, body: next } = cur else { break };
+        check_guarded(ctx, &scope, param_type)?;
+        scope = enter_binder(&scope, param);
+        cur = next;
+    }
+    Ok(())
+}
+
 /// Check that a MUTUAL block of fixpoints terminates — the mutual Giménez guard.
 ///
 /// Every member's structural (decreasing) argument position is computed first; then
@@ -108,6 +129,7 @@ pub fn check_termination_mutual(ctx: &Context, defs: &[(String, Term)]) -> Kerne
             struct_param_live: true,
             shadowed_fix: HashSet::new(),
         };
+        check_telescope_guarded(ctx, &guard_ctx, body, inner)?;
         check_guarded(ctx, &guard_ctx, inner)?;
     }
     Ok(())
@@ -460,7 +482,13 @@ fn check_match_cases_guarded(
         // never admits a non-terminating fixpoint. `ctor_name`/`ctor_type` are
         // bound for the constructor-arity computation above.
         let _ = ctor_name;
+        let mut binder = case;
         for (var, field) in smaller_vars.iter().zip(fields.iter()) {
+            // The binder's own annotation must not recurse either.
+            if let Term::Lambda { param_type, body, .. } = binder {
+                check_guarded(ctx, &extended_ctx, param_type)?;
+                binder = body;
+            }
             extended_ctx.smaller_than.insert(var.clone());
             if is_function_into(ctx, &guard_ctx.struct_type, field) {
                 extended_ctx.smaller_functions.insert(var.clone());
@@ -482,6 +510,11 @@ fn check_match_cases_guarded(
         check_guarded(ctx, &extended_ctx, case_body)?;
     }
 
+    // Surplus cases match no constructor and bind nothing smaller.
+    for case in cases.iter().skip(constructors.len()) {
+        check_guarded(ctx, guard_ctx, case)?;
+    }
+
     Ok(())
 }
 
-- 
2.43.0


From 5f1e362d153fd3f8153596b532705256c11fe3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:46:36 +0000
Subject: [PATCH 21/40] fix: keep binder names apart when comparing types and
 opening cases

---
 .../logicaffeine_kernel/src/type_checker.rs   | 248 +++++++++---------
 1 file changed, 117 insertions(+), 131 deletions(-)

diff --git a/crates/logicaffeine_kernel/src/type_checker.rs b/crates/logicaffeine_kernel/src/type_checker.rs
index 57f2562..cd62f37 100644
--- a/crates/logicaffeine_kernel/src/type_checker.rs
+++ b/crates/logicaffeine_kernel/src/type_checker.rs
@@ -94,7 +94,7 @@ pub fn infer_type(ctx: &Context, term: &Term) -> KernelResult<Term> {
             let a_sort = infer_sort(ctx, param_type)?;
 
             // B must be a type in the extended context
-            let (param, body_type) = open_binder(ctx, param, body_type);
+            let (param, body_type) = open_binder(ctx, param, param_type, body_type);
             let extended_ctx = ctx.extend(&param, (**param_type).clone());
             let b_sort = infer_sort(&extended_ctx, &body_type)?;
 
@@ -120,7 +120,7 @@ pub fn infer_type(ctx: &Context, term: &Term) -> KernelResult<Term> {
             let _ = infer_sort(ctx, param_type)?;
 
             // Infer body type in extended context
-            let (param, body) = open_binder(ctx, param, body);
+            let (param, body) = open_binder(ctx, param, param_type, body);
             let extended_ctx = ctx.extend(&param, (**param_type).clone());
             let body_type = infer_type(&extended_ctx, &body)?;
 
@@ -339,8 +339,9 @@ pub fn infer_type(ctx: &Context, term: &Term) -> KernelResult<Term> {
             crate::termination::check_termination(ctx, name, body)?;
 
             // Sanity check: verify the body is well-formed with f bound
-            let extended = ctx.extend(name, structural_type.clone());
-            let _ = infer_type(&extended, body)?;
+            let (name, body) = open_binder(ctx, name, &structural_type, body);
+            let extended = ctx.extend(&name, structural_type.clone());
+            let _ = infer_type(&extended, &body)?;
 
             Ok(structural_type)
         }
@@ -399,7 +400,7 @@ fn infer_fix_type_structurally(ctx: &Context, term: &Term) -> KernelResult<Term>
             let _ = infer_sort(ctx, param_type)?;
 
             // Extend context and recurse into body
-            let (param, body) = open_binder(ctx, param, body);
+            let (param, body) = open_binder(ctx, param, param_type, body);
             let extended = ctx.extend(&param, (**param_type).clone());
             let body_type = infer_fix_type_structurally(&extended, &body)?;
 
@@ -493,7 +494,7 @@ fn check_type(ctx: &Context, term: &Term, expected: &Term) -> KernelResult<()> {
                 } = expected
                 {
                     // Check body in extended context using expected param type
-                    let (param, body) = open_binder(ctx, param, body);
+                    let (param, body) = open_binder(ctx, param, expected, body);
                     let extended_ctx = ctx.extend(&param, (**expected_param_type).clone());
                     // Substitute in expected_body_type if param names differ
                     let body_expected = if param != *expected_param {
@@ -694,56 +695,18 @@ fn compute_indexed_case_type(
     num_params: usize,
     disc_params: &[Term],
 ) -> Term {
-    // Peel the constructor's full Π telescope; the residual is its result `I params… idx…`.
-    let mut all_params: Vec<(String, Term)> = Vec::new();
-    let mut current = ctor_type;
-    while let Term::Pi { param, param_type, body_type } = current {
-        all_params.push((param.clone(), (**param_type).clone()));
-        current = body_type;
-    }
-    let result_args = extract_type_args(current);
-
-    let split = num_params.min(all_params.len());
-    let param_binders = &all_params[0..split];
-    // Fresh names for the value parameters (those past the inductive's parameters).
-    let value_named: Vec<(String, String, Term)> = all_params[split..]
-        .iter()
-        .enumerate()
-        .map(|(i, (orig, ty))| (orig.clone(), format!("__arg{}", i), ty.clone()))
-        .collect();
-
-    // Rewrite a term from the constructor's scope into the case's scope: parameter names →
-    // the discriminant's parameter arguments, and each value parameter → its fresh name.
-    // `upto` bounds which value parameters are already in scope (for dependent arg types).
-    let rewrite = |t: &Term, upto: usize| -> Term {
-        let mut out = t.clone();
-        for (i, (name, _)) in param_binders.iter().enumerate() {
-            if name != "_" {
-                out = substitute(&out, name, &disc_params[i]);
-            }
-        }
-        for (orig, fresh, _) in value_named.iter().take(upto) {
-            if orig != "_" {
-                out = substitute(&out, orig, &Term::Var(fresh.clone()));
-            }
-        }
-        out
-    };
+    let (value_args, result) = open_constructor(motive, ctor_type, num_params, disc_params);
 
-    // The constructor's result index expressions (its result args past the parameters),
-    // rewritten into the case's scope.
-    let index_exprs: Vec<Term> = result_args
-        .iter()
-        .skip(split)
-        .map(|e| beta_reduce(&rewrite(e, value_named.len())))
-        .collect();
+    // The constructor's result index expressions (its result args past the parameters).
+    let index_exprs: Vec<Term> =
+        extract_type_args(&result).iter().skip(num_params).map(beta_reduce).collect();
 
     // `C disc_params… value_vars…`.
     let mut ctor_applied = Term::Global(ctor_name.to_string());
     for pa in disc_params {
         ctor_applied = Term::App(Box::new(ctor_applied), Box::new(pa.clone()));
     }
-    for (_, fresh, _) in &value_named {
+    for (fresh, _) in &value_args {
         ctor_applied = Term::App(Box::new(ctor_applied), Box::new(Term::Var(fresh.clone())));
     }
 
@@ -755,13 +718,11 @@ fn compute_indexed_case_type(
     body = Term::App(Box::new(body), Box::new(ctor_applied));
     let mut case_type = beta_reduce(&body);
 
-    // Re-wrap the value parameters as `Π`, each type closed into the case's scope.
-    for k in (0..value_named.len()).rev() {
-        let (_, fresh, ty_k) = &value_named[k];
-        let pty = beta_reduce(&rewrite(ty_k, k));
+    // Re-wrap the value parameters as `Π`.
+    for (fresh, ty) in value_args.into_iter().rev() {
         case_type = Term::Pi {
-            param: fresh.clone(),
-            param_type: Box::new(pty),
+            param: fresh,
+            param_type: Box::new(beta_reduce(&ty)),
             body_type: Box::new(case_type),
         };
     }
@@ -769,6 +730,41 @@ fn compute_indexed_case_type(
     case_type
 }
 
+/// Open a constructor's type for a case: its parameters instantiated by `params`, and each
+/// value argument given a name used neither in those nor in the `motive`. Returns the value
+/// arguments with their types and the constructor's result type. One binder is opened at a
+/// time, so an argument mentioning a variable named like a later binder is left alone.
+fn open_constructor(
+    motive: &Term,
+    ctor_type: &Term,
+    num_params: usize,
+    params: &[Term],
+) -> (Vec<(String, Term)>, Term) {
+    let mut avoid = std::collections::HashSet::new();
+    all_var_names(motive, &mut avoid);
+    for p in params {
+        all_var_names(p, &mut avoid);
+    }
+    let mut value_args: Vec<(String, Term)> = Vec::new();
+    let mut current = ctor_type.clone();
+    let mut opened = 0;
+    while let Term::Pi { param, param_type, body_type } = current {
+        let arg = if opened < num_params {
+            params[opened].clone()
+        } else {
+            let mut name = format!("__arg{}", opened - num_params);
+            if avoid.contains(&name) {
+                name = fresh_name(&name, &avoid);
+            }
+            value_args.push((name.clone(), *param_type));
+            Term::Var(name)
+        };
+        current = substitute(&body_type, &param, &arg);
+        opened += 1;
+    }
+    (value_args, current)
+}
+
 /// Compute the expected type for a match case.
 ///
 /// For a constructor C : A₁ → A₂ → ... → I,
@@ -786,70 +782,29 @@ fn compute_case_type(motive: &Term, ctor_name: &str, ctor_type: &Term, disc_type
     let type_args = extract_type_args(disc_type);
     let num_type_args = type_args.len();
 
-    // Collect parameters from constructor type
-    let mut all_params: Vec<(String, Term)> = Vec::new();
-    let mut current = ctor_type;
-
-    while let Term::Pi {
-        param,
-        param_type,
-        body_type,
-    } = current
-    {
-        all_params.push((param.clone(), (**param_type).clone()));
-        current = body_type;
-    }
-
-    // Split into type parameters (fixed by the discriminant) and value
-    // parameters (bound by the case). The type parameters are the first
-    // `num_type_args` constructor arguments.
-    let type_params: Vec<(String, Term)> = all_params
-        .iter()
-        .take(num_type_args)
-        .map(|(n, t)| (n.clone(), t.clone()))
-        .collect();
-    // For each value parameter keep (original name, fresh name, type). The
-    // original name matters: a *dependent* constructor (e.g. `Ex`'s
-    // `witness : … Π(x:A). P x → Ex A P`) has later argument types that mention
-    // earlier value parameters, so those references must be rewritten to the
-    // fresh names too — not just the type parameters.
-    let value_named: Vec<(String, String, Term)> = all_params
-        .into_iter()
-        .skip(num_type_args)
-        .enumerate()
-        .map(|(i, (orig, ty))| (orig, format!("__arg{}", i), ty))
-        .collect();
+    // The type parameters (the first `num_type_args` constructor arguments) are fixed by
+    // the discriminant; the value parameters are bound by the case.
+    let (value_args, _) = open_constructor(motive, ctor_type, num_type_args, &type_args);
 
     // Build `C type_args… value_args…` with the fresh value-arg names.
     let mut ctor_applied = Term::Global(ctor_name.to_string());
     for type_arg in &type_args {
         ctor_applied = Term::App(Box::new(ctor_applied), Box::new(type_arg.clone()));
     }
-    for (_, new_name, _) in &value_named {
+    for (new_name, _) in &value_args {
         ctor_applied = Term::App(Box::new(ctor_applied), Box::new(Term::Var(new_name.clone())));
     }
 
     // `motive (C …)`, beta-reduced.
     let result_type = beta_reduce(&Term::App(Box::new(motive.clone()), Box::new(ctor_applied)));
 
-    // Wrap in Π over the value parameters (reverse order for correct nesting).
-    // Each parameter's type is closed by substituting the type parameters and
-    // every *earlier* value parameter (original → fresh), then beta-reduced so a
-    // dependent type like `P x` collapses to its applied form (e.g. `evil x`).
+    // Wrap in Π over the value parameters (reverse order for correct nesting), each type
+    // beta-reduced so a dependent type like `P x` collapses to its applied form.
     let mut case_type = result_type;
-    for k in (0..value_named.len()).rev() {
-        let (_, new_name, ty_k) = &value_named[k];
-        let mut pty = ty_k.clone();
-        for ((tp_name, _), type_arg) in type_params.iter().zip(type_args.iter()) {
-            pty = substitute(&pty, tp_name, type_arg);
-        }
-        for (orig_j, new_j, _) in value_named.iter().take(k) {
-            pty = substitute(&pty, orig_j, &Term::Var(new_j.clone()));
-        }
-        let pty = beta_reduce(&pty);
+    for (new_name, ty) in value_args.into_iter().rev() {
         case_type = Term::Pi {
-            param: new_name.clone(),
-            param_type: Box::new(pty),
+            param: new_name,
+            param_type: Box::new(beta_reduce(&ty)),
             body_type: Box::new(case_type),
         };
     }
@@ -1077,16 +1032,19 @@ fn freshen(
 
 /// Name a binder for the scope it opens: its own name, or — when a local variable's type
 /// still mentions an outer binding of that name — a fresh one, renamed through the body.
+/// `outer` is a term of the enclosing scope that is read together with the body.
 fn open_binder<'t>(
     ctx: &Context,
     param: &str,
+    outer: &Term,
     body: &'t Term,
 ) -> (String, std::borrow::Cow<'t, Term>) {
-    if !ctx.captures(param) {
+    if !ctx.captures(param) && !occurs_free(outer, param) {
         return (param.to_string(), std::borrow::Cow::Borrowed(body));
     }
     let mut avoid = std::collections::HashSet::new();
     all_var_names(body, &mut avoid);
+    all_var_names(outer, &mut avoid);
     let mut fresh = fresh_name(param, &avoid);
     while ctx.get(&fresh).is_some() {
         avoid.insert(fresh);
@@ -1096,6 +1054,32 @@ fn open_binder<'t>(
     (fresh, std::borrow::Cow::Owned(renamed))
 }
 
+/// One name under which two binders' bodies can be compared: `p1`, unless that name means
+/// something else in `b2` or in the enclosing scope, and then a fresh one.
+fn align_binders<'t>(
+    ctx: Option<&Context>,
+    p1: &str,
+    b1: &'t Term,
+    p2: &str,
+    b2: &Term,
+) -> (String, std::borrow::Cow<'t, Term>, Term) {
+    let bound = ctx.is_some_and(|c| c.get(p1).is_some());
+    if !bound && (p1 == p2 || !occurs_free(b2, p1)) {
+        let b2 = substitute(b2, p2, &Term::Var(p1.to_string()));
+        return (p1.to_string(), std::borrow::Cow::Borrowed(b1), b2);
+    }
+    let mut avoid = std::collections::HashSet::new();
+    all_var_names(b1, &mut avoid);
+    all_var_names(b2, &mut avoid);
+    let mut fresh = fresh_name(p1, &avoid);
+    while ctx.is_some_and(|c| c.get(&fresh).is_some()) {
+        avoid.insert(fresh);
+        fresh = fresh_name(p1, &avoid);
+    }
+    let (b1, b2) = (rename_var(b1, p1, &fresh), rename_var(b2, p2, &fresh));
+    (fresh, std::borrow::Cow::Owned(b1), b2)
+}
+
 /// Rename free occurrences of `from` to `to` in `term`. `to` must be globally
 /// fresh in `term`, so this rename cannot itself capture.
 fn rename_var(term: &Term, from: &str, to: &str) -> Term {
@@ -1374,9 +1358,9 @@ fn is_subtype_normalized(ctx: &Context, a: &Term, b: &Term) -> bool {
             // Contravariant: t2 ≤ t1 (the expected param can be more specific)
             is_subtype_normalized(ctx, t2, t1) && {
                 // Covariant: b1 ≤ b2 (alpha-rename to compare bodies, under the binder)
-                let ext = ctx.extend(p1, (**t1).clone());
-                let b2_renamed = substitute(b2, p2, &Term::Var(p1.clone()));
-                is_subtype_normalized(&ext, b1, &b2_renamed)
+                let (p, b1, b2) = align_binders(Some(ctx), p1, b1, p2, b2);
+                let ext = ctx.extend(&p, (**t1).clone());
+                is_subtype_normalized(&ext, &b1, &b2)
             }
         }
 
@@ -1478,16 +1462,18 @@ fn def_eq_normalized(ctx: &Context, a: &Term, b: &Term) -> bool {
     // the other side applied to the bound variable, under the binder.
     if let Term::Lambda { param, param_type, body } = a {
         if !matches!(b, Term::Lambda { .. }) {
-            let ext = ctx.extend(param, (**param_type).clone());
-            let bx = normalize(ctx, &Term::App(Box::new(b.clone()), Box::new(Term::Var(param.clone()))));
-            return def_eq_normalized(&ext, body, &bx);
+            let (param, body) = open_binder(ctx, param, b, body);
+            let ext = ctx.extend(&param, (**param_type).clone());
+            let bx = normalize(ctx, &Term::App(Box::new(b.clone()), Box::new(Term::Var(param))));
+            return def_eq_normalized(&ext, &body, &bx);
         }
     }
     if let Term::Lambda { param, param_type, body } = b {
         if !matches!(a, Term::Lambda { .. }) {
-            let ext = ctx.extend(param, (**param_type).clone());
-            let ax = normalize(ctx, &Term::App(Box::new(a.clone()), Box::new(Term::Var(param.clone()))));
-            return def_eq_normalized(&ext, &ax, body);
+            let (param, body) = open_binder(ctx, param, a, body);
+            let ext = ctx.extend(&param, (**param_type).clone());
+            let ax = normalize(ctx, &Term::App(Box::new(a.clone()), Box::new(Term::Var(param))));
+            return def_eq_normalized(&ext, &ax, &body);
         }
     }
 
@@ -1525,9 +1511,9 @@ fn def_eq_normalized(ctx: &Context, a: &Term, b: &Term) -> bool {
             Term::Pi { param: p2, param_type: t2, body_type: b2 },
         ) => {
             def_eq_normalized(ctx, t1, t2) && {
-                let ext = ctx.extend(p1, (**t1).clone());
-                let b2r = substitute(b2, p2, &Term::Var(p1.clone()));
-                def_eq_normalized(&ext, b1, &b2r)
+                let (p, b1, b2) = align_binders(Some(ctx), p1, b1, p2, b2);
+                let ext = ctx.extend(&p, (**t1).clone());
+                def_eq_normalized(&ext, &b1, &b2)
             }
         }
         (
@@ -1535,9 +1521,9 @@ fn def_eq_normalized(ctx: &Context, a: &Term, b: &Term) -> bool {
             Term::Lambda { param: p2, param_type: t2, body: b2 },
         ) => {
             def_eq_normalized(ctx, t1, t2) && {
-                let ext = ctx.extend(p1, (**t1).clone());
-                let b2r = substitute(b2, p2, &Term::Var(p1.clone()));
-                def_eq_normalized(&ext, b1, &b2r)
+                let (p, b1, b2) = align_binders(Some(ctx), p1, b1, p2, b2);
+                let ext = ctx.extend(&p, (**t1).clone());
+                def_eq_normalized(&ext, &b1, &b2)
             }
         }
         (Term::App(f1, a1), Term::App(f2, a2)) => {
@@ -1553,8 +1539,8 @@ fn def_eq_normalized(ctx: &Context, a: &Term, b: &Term) -> bool {
                 && c1.iter().zip(c2.iter()).all(|(x, y)| def_eq_normalized(ctx, x, y))
         }
         (Term::Fix { name: n1, body: b1 }, Term::Fix { name: n2, body: b2 }) => {
-            let b2r = substitute(b2, n2, &Term::Var(n1.clone()));
-            def_eq_normalized(ctx, b1, &b2r)
+            let (_, b1, b2) = align_binders(Some(ctx), n1, b1, n2, b2);
+            def_eq_normalized(ctx, &b1, &b2)
         }
         _ => false,
     };
@@ -1644,9 +1630,9 @@ fn types_equal(a: &Term, b: &Term) -> bool {
             },
         ) => {
             types_equal(t1, t2) && {
-                // Alpha-equivalence: rename p2 to p1 in b2
-                let b2_renamed = substitute(b2, p2, &Term::Var(p1.clone()));
-                types_equal(b1, &b2_renamed)
+                // Alpha-equivalence: compare the bodies under one name
+                let (_, b1, b2) = align_binders(None, p1, b1, p2, b2);
+                types_equal(&b1, &b2)
             }
         }
 
@@ -1663,8 +1649,8 @@ fn types_equal(a: &Term, b: &Term) -> bool {
             },
         ) => {
             types_equal(t1, t2) && {
-                let b2_renamed = substitute(b2, p2, &Term::Var(p1.clone()));
-                types_equal(b1, &b2_renamed)
+                let (_, b1, b2) = align_binders(None, p1, b1, p2, b2);
+                types_equal(&b1, &b2)
             }
         }
 
@@ -1698,9 +1684,9 @@ fn types_equal(a: &Term, b: &Term) -> bool {
                 body: b2,
             },
         ) => {
-            // Alpha-equivalence: rename n2 to n1 in b2
-            let b2_renamed = substitute(b2, n2, &Term::Var(n1.clone()));
-            types_equal(b1, &b2_renamed)
+            // Alpha-equivalence: compare the bodies under one name
+            let (_, b1, b2) = align_binders(None, n1, b1, n2, b2);
+            types_equal(&b1, &b2)
         }
 
         _ => false,
-- 
2.43.0


From a0076ac9eaebfe2ba79d2edac17d670c8f197c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:47:17 +0000
Subject: [PATCH 22/40] fix: universe successor no longer wraps at the largest
 level

---
 crates/logicaffeine_kernel/src/term.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/logicaffeine_kernel/src/term.rs b/crates/logicaffeine_kernel/src/term.rs
index 58107e2..cf95323 100644
--- a/crates/logicaffeine_kernel/src/term.rs
+++ b/crates/logicaffeine_kernel/src/term.rs
@@ -196,7 +196,7 @@ impl Universe {
     pub fn succ(&self) -> Universe {
         match self {
             Universe::SProp | Universe::Prop => Universe::Type(1),
-            Universe::Type(n) => Universe::Type(n + 1),
+            Universe::Type(n) if *n < u32::MAX => Universe::Type(n + 1),
             other => Universe::Succ(Box::new(other.clone())),
         }
     }
-- 
2.43.0


From 13739b75f71b9a32ecd25f8d515f8d6e14af9958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:55:20 +0000
Subject: [PATCH 23/40] fix: a sleep longer than the clock can count no longer
 overflows

---
 crates/logicaffeine_runtime/src/scheduler.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/logicaffeine_runtime/src/scheduler.rs b/crates/logicaffeine_runtime/src/scheduler.rs
index 817973e..80a1491 100644
--- a/crates/logicaffeine_runtime/src/scheduler.rs
+++ b/crates/logicaffeine_runtime/src/scheduler.rs
@@ -493,7 +493,7 @@ impl<'t> Scheduler<'t> {
             TaskStep::Recv(ch) => self.do_recv(tid, ch),
             TaskStep::TryRecv(ch) => self.do_try_recv(tid, ch),
             TaskStep::Sleep(d) => {
-                self.timers.push(TimerEntry { fire_at: self.clock + d, tid, arm: None });
+                self.timers.push(TimerEntry { fire_at: self.clock.saturating_add(d), tid, arm: None });
                 self.tasks.get_mut(&tid).unwrap().state = TaskState::BlockedTimer;
             }
             TaskStep::Select(arms) => self.do_select(tid, arms),
@@ -663,7 +663,7 @@ impl<'t> Scheduler<'t> {
                         self.chans.get_mut(ch).unwrap().blocked_receivers.push_back(tid);
                     }
                     SelectArm::Timeout(d) => {
-                        self.timers.push(TimerEntry { fire_at: self.clock + *d, tid, arm: Some(i) });
+                        self.timers.push(TimerEntry { fire_at: self.clock.saturating_add(*d), tid, arm: Some(i) });
                     }
                 }
             }
-- 
2.43.0


From 70d8c1673ccc19e6ba3ea9401d77c2574603d01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:55:20 +0000
Subject: [PATCH 24/40] fix: a select naming one channel twice is deregistered
 from it completely

---
 crates/logicaffeine_runtime/src/scheduler.rs | 23 ++++++++------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/crates/logicaffeine_runtime/src/scheduler.rs b/crates/logicaffeine_runtime/src/scheduler.rs
index 80a1491..0e86683 100644
--- a/crates/logicaffeine_runtime/src/scheduler.rs
+++ b/crates/logicaffeine_runtime/src/scheduler.rs
@@ -611,17 +611,14 @@ impl<'t> Scheduler<'t> {
                 slot.state = TaskState::Ready;
             }
             self.ready.push(rid);
-            self.cancel_select_registrations(rid, Some(ch));
+            self.cancel_select_registrations(rid);
         } else {
             self.mark_ready(rid, value);
         }
     }
 
-    fn cancel_select_registrations(&mut self, rid: TaskId, except: Option<ChanId>) {
-        for (cid, chan) in self.chans.iter_mut() {
-            if Some(*cid) == except {
-                continue;
-            }
+    fn cancel_select_registrations(&mut self, rid: TaskId) {
+        for chan in self.chans.values_mut() {
             chan.blocked_receivers.retain(|t| *t != rid);
         }
         self.timers.retain(|t| t.tid != rid);
@@ -742,7 +739,7 @@ impl<'t> Scheduler<'t> {
                 }
                 self.ready.push(tid);
                 if had.is_some() {
-                    self.cancel_select_registrations(tid, None);
+                    self.cancel_select_registrations(tid);
                 }
             }
             None => self.mark_ready(tid, RtPayload::Nothing),
@@ -795,12 +792,10 @@ impl<'t> Scheduler<'t> {
     }
 
     fn do_close(&mut self, ch: ChanId) {
-        let waiters: Vec<TaskId> = {
-            let chan = self.chans.get_mut(&ch).unwrap();
-            chan.closed = true;
-            chan.blocked_receivers.drain(..).collect()
-        };
-        for rid in waiters {
+        self.chans.get_mut(&ch).unwrap().closed = true;
+        // One waiter at a time: waking a `Select` also drops its other registrations,
+        // which may be on this very channel.
+        while let Some(rid) = self.chans.get_mut(&ch).unwrap().blocked_receivers.pop_front() {
             self.wake_closed_receiver(rid, ch);
         }
     }
@@ -819,7 +814,7 @@ impl<'t> Scheduler<'t> {
                 slot.state = TaskState::Ready;
             }
             self.ready.push(rid);
-            self.cancel_select_registrations(rid, Some(ch));
+            self.cancel_select_registrations(rid);
         } else {
             self.mark_ready(rid, RtPayload::Nothing);
         }
-- 
2.43.0


From 6945390992844a4b80bc024d895e0554732cd949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:55:20 +0000
Subject: [PATCH 25/40] fix: an aborted task never runs again

---
 crates/logicaffeine_runtime/src/executor.rs  |  5 +++++
 crates/logicaffeine_runtime/src/scheduler.rs | 10 +++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/crates/logicaffeine_runtime/src/executor.rs b/crates/logicaffeine_runtime/src/executor.rs
index 90a5453..2db39ec 100644
--- a/crates/logicaffeine_runtime/src/executor.rs
+++ b/crates/logicaffeine_runtime/src/executor.rs
@@ -248,6 +248,11 @@ where
             for tid in &order {
                 let WorkerReport { tid: rt, output: slice_out, step } =
                     reports.remove(tid).expect("report for dispatched task");
+                // Aborted by an earlier step of this batch: cooperatively it would not
+                // have been polled at all, so its slice is dropped.
+                if sched.ws_is_done(rt) {
+                    continue;
+                }
                 output.extend(slice_out);
                 apply_step(&mut sched, &mut fresh, rt, step);
             }
diff --git a/crates/logicaffeine_runtime/src/scheduler.rs b/crates/logicaffeine_runtime/src/scheduler.rs
index 0e86683..644ff13 100644
--- a/crates/logicaffeine_runtime/src/scheduler.rs
+++ b/crates/logicaffeine_runtime/src/scheduler.rs
@@ -410,6 +410,12 @@ impl<'t> Scheduler<'t> {
         self.tasks.values().all(|s| matches!(s.state, TaskState::Done))
     }
 
+    /// Has this task finished (or been aborted)?
+    #[cfg(not(target_arch = "wasm32"))]
+    pub(crate) fn ws_is_done(&self, tid: TaskId) -> bool {
+        matches!(self.tasks[&tid].state, TaskState::Done)
+    }
+
     /// Are there pending timers (advance the logical clock when no task is ready)?
     #[cfg(not(target_arch = "wasm32"))]
     pub(crate) fn ws_has_timers(&self) -> bool {
@@ -458,7 +464,9 @@ impl<'t> Scheduler<'t> {
             TaskStep::Await(target) => self.do_await(tid, target),
             TaskStep::Abort(target) => {
                 self.do_abort(target);
-                self.mark_ready(tid, RtPayload::Nothing);
+                if target != tid {
+                    self.mark_ready(tid, RtPayload::Nothing);
+                }
             }
             TaskStep::Close(ch) => {
                 self.do_close(ch);
-- 
2.43.0


From 6074714ffd8056de9c094d07e27716bce1ab3913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:59:20 +0000
Subject: [PATCH 26/40] fix: shards of impossible shape no longer spoil
 reconstruction

---
 .../src/concurrency/fec.rs                    | 20 ++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/crates/logicaffeine_compile/src/concurrency/fec.rs b/crates/logicaffeine_compile/src/concurrency/fec.rs
index dbf59c1..fb74e88 100644
--- a/crates/logicaffeine_compile/src/concurrency/fec.rs
+++ b/crates/logicaffeine_compile/src/concurrency/fec.rs
@@ -141,6 +141,11 @@ fn encode_matrix(n: usize, k: usize) -> Option<Vec<Vec<u8>>> {
     Some(matmul(&vander, &inv))
 }
 
+/// The length of every shard of an `orig_len`-byte payload split over `k` data shards.
+fn shard_len(orig_len: usize, k: usize) -> usize {
+    orig_len.div_ceil(k).max(1)
+}
+
 /// Encode `data` into `n` shards (`k` data + `n − k` parity). Returns the original byte
 /// length (for un-padding on decode) and the shards. `None` for a degenerate `(k, n)`
 /// (`k == 0`, `n < k`, or `n > 256` — GF(2^8) has only 256 distinct nodes).
@@ -148,7 +153,7 @@ pub fn encode(data: &[u8], k: usize, n: usize) -> Option<(usize, Vec<Vec<u8>>)>
     if k == 0 || n < k || n > 256 {
         return None;
     }
-    let shard_len = data.len().div_ceil(k).max(1);
+    let shard_len = shard_len(data.len(), k);
     let mut padded = data.to_vec();
     padded.resize(k * shard_len, 0);
     let e = encode_matrix(n, k)?;
@@ -174,7 +179,7 @@ pub fn decode(orig_len: usize, k: usize, n: usize, have: &[(usize, Vec<u8>)]) ->
     if k == 0 || n < k || n > 256 || have.is_empty() {
         return None;
     }
-    let shard_len = have[0].1.len();
+    let shard_len = shard_len(orig_len, k);
     let e = encode_matrix(n, k)?;
     let mut idxs: Vec<usize> = Vec::with_capacity(k);
     let mut rows: Vec<Vec<u8>> = Vec::with_capacity(k);
@@ -252,7 +257,16 @@ fn parse_shard(bytes: &[u8]) -> Option<(ShardHeader, &[u8])> {
         orig_len: u32::from_le_bytes(bytes[13..17].try_into().ok()?) as usize,
         index: u16::from_le_bytes(bytes[17..19].try_into().ok()?) as usize,
     };
-    Some((h, &bytes[FEC_HEADER_LEN..]))
+    let shard = &bytes[FEC_HEADER_LEN..];
+    if h.k == 0
+        || h.n < h.k
+        || h.n > 256
+        || h.index >= h.n
+        || shard.len() != shard_len(h.orig_len, h.k)
+    {
+        return None; // no encoder produces this
+    }
+    Some((h, shard))
 }
 
 /// Peek a framed shard's identity without copying its payload: `(msg_id, k, n)`. `None`
-- 
2.43.0


From 059b0adfdb6d2ff2bcb081946c98c2d38c50b892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:59:32 +0000
Subject: [PATCH 27/40] fix: a column past the end of a line maps to the end of
 that line

---
 crates/logicaffeine_lsp/src/line_index.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/logicaffeine_lsp/src/line_index.rs b/crates/logicaffeine_lsp/src/line_index.rs
index a80a1be..c816ce5 100644
--- a/crates/logicaffeine_lsp/src/line_index.rs
+++ b/crates/logicaffeine_lsp/src/line_index.rs
@@ -92,7 +92,13 @@ impl LineIndex {
             utf16_offset += ch.len_utf16() as u32;
         }
 
-        line_end
+        // Past the end of the line: its end, which is before the terminator.
+        let terminator = if line_text.ends_with("\r\n") {
+            2
+        } else {
+            line_text.ends_with('\n') as usize
+        };
+        line_end - terminator
     }
 }
 
-- 
2.43.0


From 7a84db1b90d309c725b59142e5f7b9e6e2d8ce56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:59:32 +0000
Subject: [PATCH 28/40] fix: an edit whose range is given backwards no longer
 panics

---
 crates/logicaffeine_lsp/src/document.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/logicaffeine_lsp/src/document.rs b/crates/logicaffeine_lsp/src/document.rs
index 848ef8a..712cd97 100644
--- a/crates/logicaffeine_lsp/src/document.rs
+++ b/crates/logicaffeine_lsp/src/document.rs
@@ -75,7 +75,7 @@ pub fn apply_content_change(text: &mut String, range: Option<Range>, new_text: &
             let line_index = LineIndex::new(text);
             let start = line_index.offset(range.start);
             let end = line_index.offset(range.end);
-            text.replace_range(start..end, new_text);
+            text.replace_range(start.min(end)..start.max(end), new_text);
         }
     }
 }
-- 
2.43.0


From 8f3c781cd6d6e91292f67730f201c1460d70037f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:07:10 +0000
Subject: [PATCH 29/40] fix: virtual paths cannot leave the root directory and
 writes use their own temporary name

---
 crates/logicaffeine_system/src/fs/mod.rs      | 78 ++++++++++++++++---
 crates/logicaffeine_system/src/fs/uring.rs    | 19 +++--
 .../src/fs/uring_worker.rs                    |  4 +-
 3 files changed, 81 insertions(+), 20 deletions(-)

diff --git a/crates/logicaffeine_system/src/fs/mod.rs b/crates/logicaffeine_system/src/fs/mod.rs
index 04fcd46..f355f5c 100644
--- a/crates/logicaffeine_system/src/fs/mod.rs
+++ b/crates/logicaffeine_system/src/fs/mod.rs
@@ -198,9 +198,56 @@ impl NativeVfs {
     /// Resolve a virtual path to an absolute filesystem path.
     fn resolve(&self, path: &str) -> PathBuf {
         // Security: Prevent path traversal attacks
-        let clean = path.trim_start_matches('/').trim_start_matches("../");
-        self.base_dir.join(clean)
+        self.base_dir.join(contained_path(path))
     }
+
+    /// Resolve a virtual path that has to name something below the root.
+    fn resolve_entry(&self, path: &str) -> VfsResult<PathBuf> {
+        Ok(self.base_dir.join(contained_entry(path)?))
+    }
+}
+
+/// Normalise a virtual path to one relative to the root: separators and `.` are
+/// dropped and `..` steps back at most to the root, wherever it stands.
+#[cfg(not(target_arch = "wasm32"))]
+pub(crate) fn contained_path(path: &str) -> PathBuf {
+    use std::path::{Component, Path};
+
+    let mut clean = PathBuf::new();
+    for component in Path::new(path).components() {
+        match component {
+            Component::Normal(name) => clean.push(name),
+            Component::ParentDir => {
+                clean.pop();
+            }
+            Component::Prefix(_) | Component::RootDir | Component::CurDir => {}
+        }
+    }
+    clean
+}
+
+/// [`contained_path`] for operations that replace or remove what they are given:
+/// the root itself is refused.
+#[cfg(not(target_arch = "wasm32"))]
+pub(crate) fn contained_entry(path: &str) -> VfsResult<PathBuf> {
+    let clean = contained_path(path);
+    if clean.as_os_str().is_empty() {
+        return Err(VfsError::PermissionDenied(format!("'{}' names the root directory", path)));
+    }
+    Ok(clean)
+}
+
+/// A name next to `path` for its contents until they are complete, used by no other write.
+#[cfg(not(target_arch = "wasm32"))]
+pub(crate) fn temp_path_for(path: &std::path::Path) -> PathBuf {
+    use std::sync::atomic::{AtomicU64, Ordering};
+
+    static NEXT: AtomicU64 = AtomicU64::new(0);
+    path.with_file_name(format!(
+        ".{}-{}.tmp",
+        std::process::id(),
+        NEXT.fetch_add(1, Ordering::Relaxed)
+    ))
 }
 
 #[cfg(not(target_arch = "wasm32"))]
@@ -217,7 +264,7 @@ impl Vfs for NativeVfs {
     }
 
     async fn write(&self, path: &str, contents: &[u8]) -> VfsResult<()> {
-        let full_path = self.resolve(path);
+        let full_path = self.resolve_entry(path)?;
 
         // Ensure parent directory exists
         if let Some(parent) = full_path.parent() {
@@ -225,9 +272,20 @@ impl Vfs for NativeVfs {
         }
 
         // Atomic write: write to temp file, then rename
-        let temp_path = full_path.with_extension("tmp");
-        tokio::fs::write(&temp_path, contents).await?;
-        tokio::fs::rename(&temp_path, &full_path).await?;
+        let temp_path = temp_path_for(&full_path);
+        let written = async {
+            use tokio::io::AsyncWriteExt;
+
+            let mut file = tokio::fs::File::create(&temp_path).await?;
+            file.write_all(contents).await?;
+            // The contents have to be on disk before the name points at them
+            file.sync_all().await?;
+            tokio::fs::rename(&temp_path, &full_path).await
+        };
+        if let Err(e) = written.await {
+            let _ = tokio::fs::remove_file(&temp_path).await;
+            return Err(VfsError::from(e));
+        }
 
         Ok(())
     }
@@ -235,7 +293,7 @@ impl Vfs for NativeVfs {
     async fn append(&self, path: &str, contents: &[u8]) -> VfsResult<()> {
         use tokio::io::AsyncWriteExt;
 
-        let full_path = self.resolve(path);
+        let full_path = self.resolve_entry(path)?;
 
         // Ensure parent directory exists
         if let Some(parent) = full_path.parent() {
@@ -260,7 +318,7 @@ impl Vfs for NativeVfs {
     }
 
     async fn remove(&self, path: &str) -> VfsResult<()> {
-        let full_path = self.resolve(path);
+        let full_path = self.resolve_entry(path)?;
         tokio::fs::remove_file(&full_path).await.map_err(VfsError::from)
     }
 
@@ -270,8 +328,8 @@ impl Vfs for NativeVfs {
     }
 
     async fn rename(&self, from: &str, to: &str) -> VfsResult<()> {
-        let from_path = self.resolve(from);
-        let to_path = self.resolve(to);
+        let from_path = self.resolve_entry(from)?;
+        let to_path = self.resolve_entry(to)?;
         tokio::fs::rename(&from_path, &to_path).await.map_err(VfsError::from)
     }
 
diff --git a/crates/logicaffeine_system/src/fs/uring.rs b/crates/logicaffeine_system/src/fs/uring.rs
index ff7f69f..e552275 100644
--- a/crates/logicaffeine_system/src/fs/uring.rs
+++ b/crates/logicaffeine_system/src/fs/uring.rs
@@ -25,7 +25,7 @@ use io_uring::IoUring;
 use tokio::sync::oneshot;
 
 use super::uring_worker::UringCommand;
-use super::{DirEntry, Vfs, VfsError, VfsResult};
+use super::{contained_entry, contained_path, DirEntry, Vfs, VfsError, VfsResult};
 
 /// Ring size — number of SQE slots. 256 is ample for file I/O workloads.
 const RING_SIZE: u32 = 256;
@@ -70,8 +70,11 @@ impl UringVfs {
     }
 
     fn resolve(&self, path: &str) -> PathBuf {
-        let clean = path.trim_start_matches('/').trim_start_matches("../");
-        self.base_dir.join(clean)
+        self.base_dir.join(contained_path(path))
+    }
+
+    fn resolve_entry(&self, path: &str) -> VfsResult<PathBuf> {
+        Ok(self.base_dir.join(contained_entry(path)?))
     }
 
     fn send(&self, cmd: UringCommand) -> VfsResult<()> {
@@ -126,7 +129,7 @@ impl Vfs for UringVfs {
     }
 
     async fn write(&self, path: &str, contents: &[u8]) -> VfsResult<()> {
-        let full_path = self.resolve(path);
+        let full_path = self.resolve_entry(path)?;
         let (tx, rx) = oneshot::channel();
         self.send(UringCommand::Write {
             path: full_path,
@@ -142,7 +145,7 @@ impl Vfs for UringVfs {
     }
 
     async fn append(&self, path: &str, contents: &[u8]) -> VfsResult<()> {
-        let full_path = self.resolve(path);
+        let full_path = self.resolve_entry(path)?;
         let (tx, rx) = oneshot::channel();
         self.send(UringCommand::Append {
             path: full_path,
@@ -173,7 +176,7 @@ impl Vfs for UringVfs {
     }
 
     async fn remove(&self, path: &str) -> VfsResult<()> {
-        let full_path = self.resolve(path);
+        let full_path = self.resolve_entry(path)?;
         let (tx, rx) = oneshot::channel();
         self.send(UringCommand::Remove {
             path: full_path,
@@ -203,8 +206,8 @@ impl Vfs for UringVfs {
     }
 
     async fn rename(&self, from: &str, to: &str) -> VfsResult<()> {
-        let from_path = self.resolve(from);
-        let to_path = self.resolve(to);
+        let from_path = self.resolve_entry(from)?;
+        let to_path = self.resolve_entry(to)?;
         let (tx, rx) = oneshot::channel();
         self.send(UringCommand::Rename {
             from: from_path,
diff --git a/crates/logicaffeine_system/src/fs/uring_worker.rs b/crates/logicaffeine_system/src/fs/uring_worker.rs
index 0737b62..03e86b5 100644
--- a/crates/logicaffeine_system/src/fs/uring_worker.rs
+++ b/crates/logicaffeine_system/src/fs/uring_worker.rs
@@ -19,7 +19,7 @@ use crossbeam_channel::Receiver;
 use io_uring::{opcode, types, IoUring};
 use tokio::sync::oneshot;
 
-use super::{DirEntry, VfsError, VfsResult};
+use super::{temp_path_for, DirEntry, VfsError, VfsResult};
 
 // ─── Constants ───────────────────────────────────────────────────────────────
 
@@ -351,7 +351,7 @@ fn prepare_atomic_write(
         }
     }
 
-    let temp_path = dest_path.with_extension("tmp");
+    let temp_path = temp_path_for(&dest_path);
 
     let file = match OpenOptions::new()
         .write(true)
-- 
2.43.0


From f76b2fca98f28811bb0bf4804b27f72397e16600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:15:45 +0000
Subject: [PATCH 30/40] fix: a journal survives torn writes, failed appends and
 overlapping compaction

Part of an entry at the end of a journal hid everything appended behind it.
The journal is now replaced by a snapshot before the next update is stored.
Compaction keeps the state locked until its snapshot is written, so it no
longer overwrites an update acknowledged in between. A damaged length field
is reported instead of being taken for the end of the journal.
---
 crates/logicaffeine_system/src/distributed.rs | 154 +++++++++++-------
 crates/logicaffeine_system/src/storage/mod.rs |  85 ++++++++--
 2 files changed, 170 insertions(+), 69 deletions(-)

diff --git a/crates/logicaffeine_system/src/distributed.rs b/crates/logicaffeine_system/src/distributed.rs
index b7b0d51..b457067 100644
--- a/crates/logicaffeine_system/src/distributed.rs
+++ b/crates/logicaffeine_system/src/distributed.rs
@@ -51,6 +51,7 @@ use logicaffeine_data::crdt::Merge;
 use crate::fs::{Vfs, VfsResult, VfsError};
 use async_lock::Mutex;
 use serde::{de::DeserializeOwned, Serialize};
+use std::sync::atomic::{AtomicBool, Ordering};
 use std::sync::Arc;
 
 /// Compaction threshold: auto-compact when journal exceeds this many entries.
@@ -88,7 +89,9 @@ impl JournalHeader {
 }
 
 /// Replay journal entries to reconstruct state.
-fn replay_journal<T>(data: &[u8]) -> Result<(T, u64), VfsError>
+///
+/// Returns the state, the number of entries, and whether part of an entry follows them.
+fn replay_journal<T>(data: &[u8]) -> Result<(T, u64, bool), VfsError>
 where
     T: Merge + Serialize + DeserializeOwned + Clone + Default,
 {
@@ -99,15 +102,21 @@ where
     while pos + JournalHeader::SIZE <= data.len() {
         let header_bytes: [u8; 8] = data[pos..pos + 8].try_into().unwrap();
         let (length, expected_checksum) = JournalHeader::decode(&header_bytes);
-        pos += JournalHeader::SIZE;
+        let payload_start = pos + JournalHeader::SIZE;
 
-        let payload_end = pos + length as usize;
+        let payload_end = payload_start + length as usize;
         if payload_end > data.len() {
+            // A whole entry behind an oversized length was damaged, not cut short
+            if is_whole_entry::<T>(&data[payload_start..], expected_checksum) {
+                return Err(VfsError::JournalCorrupted(
+                    format!("Entry {} length mismatch", entry_count)
+                ));
+            }
             // Truncated entry - stop replay (WAL semantics)
             break;
         }
 
-        let payload = &data[pos..payload_end];
+        let payload = &data[payload_start..payload_end];
         let actual_checksum = crc32fast::hash(payload);
 
         if actual_checksum != expected_checksum {
@@ -128,7 +137,23 @@ where
         entry_count += 1;
     }
 
-    Ok((state, entry_count))
+    Ok((state, entry_count, pos < data.len()))
+}
+
+/// Whether `rest` begins with a complete entry carrying the given checksum.
+fn is_whole_entry<T>(rest: &[u8], expected_checksum: u32) -> bool
+where
+    T: Serialize + DeserializeOwned,
+{
+    let Ok(op) = bincode::deserialize::<JournalOp<T>>(rest) else {
+        return false;
+    };
+    match bincode::serialized_size(&op) {
+        Ok(size) if size <= rest.len() as u64 => {
+            crc32fast::hash(&rest[..size as usize]) == expected_checksum
+        }
+        _ => false,
+    }
 }
 
 // =============================================================================
@@ -154,6 +179,9 @@ where
     journal_path: String,
     topic: Option<String>,
     entry_count: Arc<Mutex<u64>>,
+    /// The journal may end in part of an entry; what follows such a part is never replayed,
+    /// so the journal has to be replaced before anything else is appended.
+    torn: Arc<AtomicBool>,
     local_peer_id: Option<String>,
 }
 
@@ -192,11 +220,11 @@ where
         topic: Option<String>,
     ) -> VfsResult<Self> {
         // 1. Replay journal to reconstruct state
-        let (state, entry_count) = if vfs.exists(path).await.unwrap_or(false) {
+        let (state, entry_count, torn) = if vfs.exists(path).await.unwrap_or(false) {
             let data = vfs.read(path).await?;
             replay_journal(&data)?
         } else {
-            (T::default(), 0)
+            (T::default(), 0, false)
         };
 
         // 2. Get local peer ID for echo detection
@@ -208,6 +236,7 @@ where
             journal_path: path.to_string(),
             topic: topic.clone(),
             entry_count: Arc::new(Mutex::new(entry_count)),
+            torn: Arc::new(AtomicBool::new(torn)),
             local_peer_id,
         };
 
@@ -233,10 +262,14 @@ where
         let mut guard = self.inner.lock().await;
         let result = f(&mut *guard);
         let snapshot = (*guard).clone();
-        drop(guard);
 
-        // 2. Persist delta to Journal
-        self.append_to_journal(&snapshot).await?;
+        // 2. Persist delta to Journal, before anything else can see or compact the state
+        if self.torn.load(Ordering::Acquire) {
+            self.do_compact(snapshot.clone()).await?;
+        } else {
+            self.append_to_journal(snapshot.clone()).await?;
+        }
+        drop(guard);
 
         // 3. Broadcast to Network (if synced)
         if let Some(topic) = &self.topic {
@@ -259,8 +292,8 @@ where
 
     /// Manual compaction.
     pub async fn compact(&self) -> VfsResult<()> {
-        let snapshot = self.inner.lock().await.clone();
-        self.do_compact(&snapshot).await
+        let guard = self.inner.lock().await;
+        self.do_compact((*guard).clone()).await
     }
 
     /// Get the number of journal entries.
@@ -272,11 +305,15 @@ where
 
     /// Start the background receive loop for network messages.
     fn start_receive_loop(&self, topic: String) {
-        let inner = self.inner.clone();
-        let vfs = self.vfs.clone();
-        let path = self.journal_path.clone();
-        let local_id = self.local_peer_id.clone();
-        let entry_count = self.entry_count.clone();
+        let this = Self {
+            inner: self.inner.clone(),
+            vfs: self.vfs.clone(),
+            journal_path: self.journal_path.clone(),
+            topic: self.topic.clone(),
+            entry_count: self.entry_count.clone(),
+            torn: self.torn.clone(),
+            local_peer_id: self.local_peer_id.clone(),
+        };
 
         tokio::spawn(async move {
             let mut rx = crate::network::gossip::subscribe(&topic).await;
@@ -292,39 +329,26 @@ where
                 };
 
                 // Merge to RAM
-                inner.lock().await.merge(&delta);
+                let mut guard = this.inner.lock().await;
+                guard.merge(&delta);
 
                 // CRITICAL: Persist to Journal
                 // This ensures remote updates survive restarts
-                let op = JournalOp::Delta(delta);
-                let payload = match bincode::serialize(&op) {
-                    Ok(p) => p,
-                    Err(e) => {
-                        eprintln!("[Distributed] Serialize failed: {:?}", e);
-                        continue;
-                    }
+                let persisted = if this.torn.load(Ordering::Acquire) {
+                    this.do_compact((*guard).clone()).await
+                } else {
+                    this.append_to_journal(delta).await
                 };
-
-                let header = JournalHeader::encode(&payload);
-                let mut entry = Vec::with_capacity(JournalHeader::SIZE + payload.len());
-                entry.extend_from_slice(&header);
-                entry.extend_from_slice(&payload);
-
-                if let Err(e) = vfs.append(&path, &entry).await {
+                if let Err(e) = persisted {
                     eprintln!("[Distributed] Journal append failed: {:?}", e);
-                } else {
-                    *entry_count.lock().await += 1;
                 }
             }
-
-            // Suppress unused variable warning
-            let _ = local_id;
         });
     }
 
-    /// Append state as delta to journal.
-    async fn append_to_journal(&self, state: &T) -> VfsResult<()> {
-        let op = JournalOp::Delta(state.clone());
+    /// Append a delta, already merged into the locked state, to the journal.
+    async fn append_to_journal(&self, delta: T) -> VfsResult<()> {
+        let op = JournalOp::Delta(delta);
         let payload = bincode::serialize(&op)
             .map_err(|e| VfsError::SerializationError(e.to_string()))?;
 
@@ -333,7 +357,10 @@ where
         entry.extend_from_slice(&header);
         entry.extend_from_slice(&payload);
 
+        // An append that fails or is cancelled may have written part of the entry
+        self.torn.store(true, Ordering::Release);
         self.vfs.append(&self.journal_path, &entry).await?;
+        self.torn.store(false, Ordering::Release);
         *self.entry_count.lock().await += 1;
 
         Ok(())
@@ -343,15 +370,14 @@ where
     async fn maybe_compact(&self) -> VfsResult<()> {
         let count = *self.entry_count.lock().await;
         if count >= COMPACT_THRESHOLD {
-            let snapshot = self.inner.lock().await.clone();
-            self.do_compact(&snapshot).await?;
+            self.compact().await?;
         }
         Ok(())
     }
 
-    /// Write snapshot and reset journal.
-    async fn do_compact(&self, snapshot: &T) -> VfsResult<()> {
-        let op = JournalOp::Snapshot(snapshot.clone());
+    /// Write a snapshot of the locked state and reset journal.
+    async fn do_compact(&self, snapshot: T) -> VfsResult<()> {
+        let op = JournalOp::Snapshot(snapshot);
         let payload = bincode::serialize(&op)
             .map_err(|e| VfsError::SerializationError(e.to_string()))?;
 
@@ -365,6 +391,7 @@ where
         self.vfs.write(&temp_path, &entry).await?;
         self.vfs.rename(&temp_path, &self.journal_path).await?;
 
+        self.torn.store(false, Ordering::Release);
         *self.entry_count.lock().await = 1;
         Ok(())
     }
@@ -387,6 +414,9 @@ where
     vfs: Arc<dyn Vfs>,
     journal_path: String,
     entry_count: Arc<Mutex<u64>>,
+    /// The journal may end in part of an entry; what follows such a part is never replayed,
+    /// so the journal has to be replaced before anything else is appended.
+    torn: Arc<AtomicBool>,
 }
 
 #[cfg(target_arch = "wasm32")]
@@ -403,11 +433,11 @@ where
         path: &str,
         _topic: Option<String>,  // Ignored on WASM
     ) -> VfsResult<Self> {
-        let (state, entry_count) = if vfs.exists(path).await.unwrap_or(false) {
+        let (state, entry_count, torn) = if vfs.exists(path).await.unwrap_or(false) {
             let data = vfs.read(path).await?;
             replay_journal(&data)?
         } else {
-            (T::default(), 0)
+            (T::default(), 0, false)
         };
 
         Ok(Self {
@@ -415,6 +445,7 @@ where
             vfs,
             journal_path: path.to_string(),
             entry_count: Arc::new(Mutex::new(entry_count)),
+            torn: Arc::new(AtomicBool::new(torn)),
         })
     }
 
@@ -426,10 +457,14 @@ where
         let mut guard = self.inner.lock().await;
         let result = f(&mut *guard);
         let snapshot = (*guard).clone();
-        drop(guard);
 
-        // Persist delta to Journal
-        self.append_to_journal(&snapshot).await?;
+        // Persist delta to Journal, before anything else can see or compact the state
+        if self.torn.load(Ordering::Acquire) {
+            self.do_compact(snapshot.clone()).await?;
+        } else {
+            self.append_to_journal(snapshot.clone()).await?;
+        }
+        drop(guard);
 
         // Auto-compact if needed
         self.maybe_compact().await?;
@@ -444,8 +479,8 @@ where
 
     /// Manual compaction.
     pub async fn compact(&self) -> VfsResult<()> {
-        let snapshot = self.inner.lock().await.clone();
-        self.do_compact(&snapshot).await
+        let guard = self.inner.lock().await;
+        self.do_compact((*guard).clone()).await
     }
 
     /// Get the number of journal entries.
@@ -453,8 +488,8 @@ where
         *self.entry_count.lock().await
     }
 
-    async fn append_to_journal(&self, state: &T) -> VfsResult<()> {
-        let op = JournalOp::Delta(state.clone());
+    async fn append_to_journal(&self, delta: T) -> VfsResult<()> {
+        let op = JournalOp::Delta(delta);
         let payload = bincode::serialize(&op)
             .map_err(|e| VfsError::SerializationError(e.to_string()))?;
 
@@ -463,7 +498,10 @@ where
         entry.extend_from_slice(&header);
         entry.extend_from_slice(&payload);
 
+        // An append that fails or is cancelled may have written part of the entry
+        self.torn.store(true, Ordering::Release);
         self.vfs.append(&self.journal_path, &entry).await?;
+        self.torn.store(false, Ordering::Release);
         *self.entry_count.lock().await += 1;
 
         Ok(())
@@ -472,14 +510,13 @@ where
     async fn maybe_compact(&self) -> VfsResult<()> {
         let count = *self.entry_count.lock().await;
         if count >= COMPACT_THRESHOLD {
-            let snapshot = self.inner.lock().await.clone();
-            self.do_compact(&snapshot).await?;
+            self.compact().await?;
         }
         Ok(())
     }
 
-    async fn do_compact(&self, snapshot: &T) -> VfsResult<()> {
-        let op = JournalOp::Snapshot(snapshot.clone());
+    async fn do_compact(&self, snapshot: T) -> VfsResult<()> {
+        let op = JournalOp::Snapshot(snapshot);
         let payload = bincode::serialize(&op)
             .map_err(|e| VfsError::SerializationError(e.to_string()))?;
 
@@ -493,6 +530,7 @@ where
         self.vfs.write(&temp_path, &entry).await?;
         self.vfs.rename(&temp_path, &self.journal_path).await?;
 
+        self.torn.store(false, Ordering::Release);
         *self.entry_count.lock().await = 1;
         Ok(())
     }
diff --git a/crates/logicaffeine_system/src/storage/mod.rs b/crates/logicaffeine_system/src/storage/mod.rs
index b2405e0..bab453a 100644
--- a/crates/logicaffeine_system/src/storage/mod.rs
+++ b/crates/logicaffeine_system/src/storage/mod.rs
@@ -52,6 +52,7 @@ use logicaffeine_data::crdt::Merge;
 use crate::fs::{Vfs, VfsResult, VfsError};
 use serde::{de::DeserializeOwned, Serialize};
 use std::marker::PhantomData;
+use std::sync::atomic::{AtomicBool, Ordering};
 use std::sync::Arc;
 use async_lock::Mutex;
 
@@ -103,6 +104,8 @@ where
     vfs: Arc<dyn Vfs + Send + Sync>,
     journal_path: String,
     entry_count: Arc<Mutex<u64>>,
+    /// The journal may end in part of an entry; what follows such a part is never replayed.
+    torn: AtomicBool,
     _marker: PhantomData<T>,
 }
 
@@ -116,11 +119,15 @@ where
     vfs: Arc<dyn Vfs>,
     journal_path: String,
     entry_count: Arc<Mutex<u64>>,
+    /// The journal may end in part of an entry; what follows such a part is never replayed.
+    torn: AtomicBool,
     _marker: PhantomData<T>,
 }
 
 /// Helper function to replay journal entries (shared between platforms).
-fn replay_journal<T>(data: &[u8]) -> Result<(T, u64), VfsError>
+///
+/// Returns the state, the number of entries, and whether part of an entry follows them.
+fn replay_journal<T>(data: &[u8]) -> Result<(T, u64, bool), VfsError>
 where
     T: Merge + Serialize + DeserializeOwned + Clone + Default,
 {
@@ -131,15 +138,21 @@ where
     while pos + JournalHeader::SIZE <= data.len() {
         let header_bytes: [u8; 8] = data[pos..pos + 8].try_into().unwrap();
         let (length, expected_checksum) = JournalHeader::decode(&header_bytes);
-        pos += JournalHeader::SIZE;
+        let payload_start = pos + JournalHeader::SIZE;
 
-        let payload_end = pos + length as usize;
+        let payload_end = payload_start + length as usize;
         if payload_end > data.len() {
+            // A whole entry behind an oversized length was damaged, not cut short
+            if is_whole_entry::<T>(&data[payload_start..], expected_checksum) {
+                return Err(VfsError::JournalCorrupted(
+                    format!("Entry {} length mismatch", entry_count)
+                ));
+            }
             // Truncated entry - stop replay (WAL semantics)
             break;
         }
 
-        let payload = &data[pos..payload_end];
+        let payload = &data[payload_start..payload_end];
         let actual_checksum = crc32fast::hash(payload);
 
         if actual_checksum != expected_checksum {
@@ -160,7 +173,23 @@ where
         entry_count += 1;
     }
 
-    Ok((state, entry_count))
+    Ok((state, entry_count, pos < data.len()))
+}
+
+/// Whether `rest` begins with a complete entry carrying the given checksum.
+fn is_whole_entry<T>(rest: &[u8], expected_checksum: u32) -> bool
+where
+    T: Serialize + DeserializeOwned,
+{
+    let Ok(op) = bincode::deserialize::<JournalOp<T>>(rest) else {
+        return false;
+    };
+    match bincode::serialized_size(&op) {
+        Ok(size) if size <= rest.len() as u64 => {
+            crc32fast::hash(&rest[..size as usize]) == expected_checksum
+        }
+        _ => false,
+    }
 }
 
 /// Native implementation with Send bounds.
@@ -175,11 +204,11 @@ where
     /// If not, creates a new journal with default state.
     ///
         pub async fn mount(vfs: Arc<dyn Vfs + Send + Sync>, path: &str) -> VfsResult<Self> {
-        let (state, entry_count) = if vfs.exists(path).await.unwrap_or(false) {
+        let (state, entry_count, torn) = if vfs.exists(path).await.unwrap_or(false) {
             let data = vfs.read(path).await?;
             replay_journal(&data)?
         } else {
-            (T::default(), 0)
+            (T::default(), 0, false)
         };
 
         Ok(Self {
@@ -187,6 +216,7 @@ where
             vfs,
             journal_path: path.to_string(),
             entry_count: Arc::new(Mutex::new(entry_count)),
+            torn: AtomicBool::new(torn),
             _marker: PhantomData,
         })
     }
@@ -204,6 +234,12 @@ where
         let mut guard = self.inner.lock().await;
         let result = f(&mut *guard);
 
+        // Replace a journal that ends in part of an entry instead of appending to it
+        if self.torn.load(Ordering::Acquire) {
+            self.write_snapshot(guard.clone()).await?;
+            return Ok(result);
+        }
+
         let op = JournalOp::Delta(guard.clone());
         let payload = bincode::serialize(&op)
             .map_err(|e| VfsError::SerializationError(e.to_string()))?;
@@ -213,7 +249,10 @@ where
         entry.extend_from_slice(&header);
         entry.extend_from_slice(&payload);
 
+        // An append that fails or is cancelled may have written part of the entry
+        self.torn.store(true, Ordering::Release);
         self.vfs.append(&self.journal_path, &entry).await?;
+        self.torn.store(false, Ordering::Release);
         *self.entry_count.lock().await += 1;
 
         Ok(result)
@@ -221,8 +260,14 @@ where
 
     /// Compact the journal by writing a snapshot.
     pub async fn compact(&self) -> VfsResult<()> {
-        let state = self.inner.lock().await.clone();
+        // Hold the state until the snapshot is written, so that no update appended
+        // in between is overwritten
+        let guard = self.inner.lock().await;
+        self.write_snapshot(guard.clone()).await
+    }
 
+    /// Replace the journal with a snapshot of the locked state.
+    async fn write_snapshot(&self, state: T) -> VfsResult<()> {
         let op = JournalOp::<T>::Snapshot(state);
         let payload = bincode::serialize(&op)
             .map_err(|e| VfsError::SerializationError(e.to_string()))?;
@@ -233,6 +278,7 @@ where
         entry.extend_from_slice(&payload);
 
         self.vfs.write(&self.journal_path, &entry).await?;
+        self.torn.store(false, Ordering::Release);
         *self.entry_count.lock().await = 1;
 
         Ok(())
@@ -262,11 +308,11 @@ where
 {
     /// Mount a persistent value from a journal file.
     pub async fn mount(vfs: Arc<dyn Vfs>, path: &str) -> VfsResult<Self> {
-        let (state, entry_count) = if vfs.exists(path).await.unwrap_or(false) {
+        let (state, entry_count, torn) = if vfs.exists(path).await.unwrap_or(false) {
             let data = vfs.read(path).await?;
             replay_journal(&data)?
         } else {
-            (T::default(), 0)
+            (T::default(), 0, false)
         };
 
         Ok(Self {
@@ -274,6 +320,7 @@ where
             vfs,
             journal_path: path.to_string(),
             entry_count: Arc::new(Mutex::new(entry_count)),
+            torn: AtomicBool::new(torn),
             _marker: PhantomData,
         })
     }
@@ -291,6 +338,12 @@ where
         let mut guard = self.inner.lock().await;
         let result = f(&mut *guard);
 
+        // Replace a journal that ends in part of an entry instead of appending to it
+        if self.torn.load(Ordering::Acquire) {
+            self.write_snapshot(guard.clone()).await?;
+            return Ok(result);
+        }
+
         let op = JournalOp::Delta(guard.clone());
         let payload = bincode::serialize(&op)
             .map_err(|e| VfsError::SerializationError(e.to_string()))?;
@@ -300,7 +353,10 @@ where
         entry.extend_from_slice(&header);
         entry.extend_from_slice(&payload);
 
+        // An append that fails or is cancelled may have written part of the entry
+        self.torn.store(true, Ordering::Release);
         self.vfs.append(&self.journal_path, &entry).await?;
+        self.torn.store(false, Ordering::Release);
         *self.entry_count.lock().await += 1;
 
         Ok(result)
@@ -308,8 +364,14 @@ where
 
     /// Compact the journal by writing a snapshot.
     pub async fn compact(&self) -> VfsResult<()> {
-        let state = self.inner.lock().await.clone();
+        // Hold the state until the snapshot is written, so that no update appended
+        // in between is overwritten
+        let guard = self.inner.lock().await;
+        self.write_snapshot(guard.clone()).await
+    }
 
+    /// Replace the journal with a snapshot of the locked state.
+    async fn write_snapshot(&self, state: T) -> VfsResult<()> {
         let op = JournalOp::<T>::Snapshot(state);
         let payload = bincode::serialize(&op)
             .map_err(|e| VfsError::SerializationError(e.to_string()))?;
@@ -320,6 +382,7 @@ where
         entry.extend_from_slice(&payload);
 
         self.vfs.write(&self.journal_path, &entry).await?;
+        self.torn.store(false, Ordering::Release);
         *self.entry_count.lock().await = 1;
 
         Ok(())
-- 
2.43.0


From b733d0da1983575dffc5df7398d36b24012e69c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:24:53 +0000
Subject: [PATCH 31/40] fix: signature contexts longer than 255 bytes are
 refused

---
 crates/logicaffeine_system/src/mldsa.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/logicaffeine_system/src/mldsa.rs b/crates/logicaffeine_system/src/mldsa.rs
index f0482c0..d1364b5 100644
--- a/crates/logicaffeine_system/src/mldsa.rs
+++ b/crates/logicaffeine_system/src/mldsa.rs
@@ -639,6 +639,9 @@ fn sample_in_ball(seed: &[u8]) -> Poly {
     c
 }
 
+/// Longest context string: its length is encoded in a single byte (FIPS-204 §5.2).
+const MAX_CTX: usize = 255;
+
 /// `M' = 0x00 ‖ |ctx| ‖ ctx ‖ M` (FIPS-204 pure, no pre-hash), then `μ = H(tr ‖ M', 64)`.
 fn compute_mu(tr: &[u8], m: &[u8], ctx: &[u8]) -> Vec<u8> {
     let mut mp = vec![0u8, ctx.len() as u8];
@@ -652,7 +655,10 @@ fn compute_mu(tr: &[u8], m: &[u8], ctx: &[u8]) -> Vec<u8> {
 // ── ML-DSA.Sign / Verify (FIPS-204 §6.2, §6.3) ─────────────────────────────────────────────────
 
 /// Deterministic ML-DSA-65 signature over `m` with context `ctx` (the `rnd = 0` variant).
+///
+/// Panics when `ctx` is longer than 255 bytes: its length is signed as one byte.
 pub fn sign(sk: &[u8], m: &[u8], ctx: &[u8]) -> Vec<u8> {
+    assert!(ctx.len() <= MAX_CTX, "ML-DSA context is at most {MAX_CTX} bytes");
     let rho = &sk[0..32];
     let k_key = &sk[32..64];
     let tr = &sk[64..128];
@@ -765,7 +771,7 @@ pub fn sign(sk: &[u8], m: &[u8], ctx: &[u8]) -> Vec<u8> {
 
 /// Verify an ML-DSA-65 signature; `true` iff valid for `(pk, m, ctx)`.
 pub fn verify(pk: &[u8], m: &[u8], ctx: &[u8], sig: &[u8]) -> bool {
-    if sig.len() != SIG_BYTES || pk.len() != PK_BYTES {
+    if sig.len() != SIG_BYTES || pk.len() != PK_BYTES || ctx.len() > MAX_CTX {
         return false;
     }
     let rho = &pk[0..32];
-- 
2.43.0


From a7430e294182c88e69705eb46977ddb1c2010500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:03:26 +0000
Subject: [PATCH 32/40] fix: constant division divides promoted dividends
 exactly

---
 crates/logicaffeine_compile/src/vm/compiler.rs | 14 ++++++++++++++
 crates/logicaffeine_compile/src/vm/machine.rs  | 15 ++++++++++-----
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/crates/logicaffeine_compile/src/vm/compiler.rs b/crates/logicaffeine_compile/src/vm/compiler.rs
index 6189d7a..bc5bbf9 100644
--- a/crates/logicaffeine_compile/src/vm/compiler.rs
+++ b/crates/logicaffeine_compile/src/vm/compiler.rs
@@ -84,6 +84,20 @@ pub fn magic_eval(x: i64, magic: u64, more: u8, mul_back: i64) -> i64 {
     }
 }
 
+/// The divisor a magic reciprocal was generated for: the least `x` whose quotient is not zero.
+pub fn magic_divisor(magic: u64, more: u8) -> i64 {
+    let (mut lo, mut hi) = (0, i64::MAX);
+    while hi - lo > 1 {
+        let mid = lo + (hi - lo) / 2;
+        if magic_eval(mid, magic, more, 0) == 0 {
+            lo = mid;
+        } else {
+            hi = mid;
+        }
+    }
+    hi
+}
+
 /// Constant-pool dedup key. Floats are keyed by bit pattern so that distinct
 /// NaN payloads and -0.0/0.0 stay distinct pool entries.
 #[derive(Clone, PartialEq, Eq, Hash)]
diff --git a/crates/logicaffeine_compile/src/vm/machine.rs b/crates/logicaffeine_compile/src/vm/machine.rs
index 1e3bffc..06d0946 100644
--- a/crates/logicaffeine_compile/src/vm/machine.rs
+++ b/crates/logicaffeine_compile/src/vm/machine.rs
@@ -2003,11 +2003,16 @@ impl<'p> Vm<'p> {
                     // (`magic`/`more`). Emitted only for an Oracle-proven Int,
                     // non-negative `lhs`, so the result is bit-identical to
                     // `Op::Div`/`Op::Mod` by the constant `c`.
-                    let x = self.reg(lhs).as_int().ok_or_else(|| {
-                        "MagicDivU on a non-Int operand".to_string()
-                    })?;
-                    let v = crate::vm::compiler::magic_eval(x, magic, more, mul_back);
-                    self.set(dst, Value::int(v));
+                    let v = match self.reg(lhs).as_int() {
+                        Some(x) => Value::int(crate::vm::compiler::magic_eval(x, magic, more, mul_back)),
+                        // A dividend that outgrew 64 bits was promoted: divide it exactly.
+                        None if mul_back != 0 => self.reg(lhs).modulo(&Value::int(mul_back))?,
+                        None => {
+                            let c = crate::vm::compiler::magic_divisor(magic, more);
+                            self.reg(lhs).div(&Value::int(c))?
+                        }
+                    };
+                    self.set(dst, v);
                     pc += 1;
                 }
                 Op::Lt { dst, lhs, rhs } => { self.binop(dst, lhs, rhs, Value::lt)?; pc += 1; }
-- 
2.43.0


From 49a6ddc7e3e4d30eb94f28251e423de6a98f0259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:03:26 +0000
Subject: [PATCH 33/40] fix: a promoted integer can be masked, as remainder by
 a power of two lowers to

---
 crates/logicaffeine_compile/src/semantics/arith.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/crates/logicaffeine_compile/src/semantics/arith.rs b/crates/logicaffeine_compile/src/semantics/arith.rs
index 3a445bd..cb40916 100644
--- a/crates/logicaffeine_compile/src/semantics/arith.rs
+++ b/crates/logicaffeine_compile/src/semantics/arith.rs
@@ -339,6 +339,14 @@ fn lanes_binary_op(
     }
 }
 
+/// The low 63 bits of the two's complement form.
+fn low_63_bits(a: &BigInt) -> i64 {
+    let m = BigInt::from_i64(1 << 62).add(&BigInt::from_i64(1 << 62));
+    let r = a.div_rem(&m).map_or_else(|| BigInt::from_i64(0), |(_, r)| r);
+    let r = if r.is_negative() { r.add(&m) } else { r };
+    r.to_i64().unwrap_or(0)
+}
+
 pub fn binary_op(
     op: BinaryOpKind,
     left: RuntimeValue,
@@ -385,6 +393,10 @@ pub fn binary_op(
         // `&` — bitwise AND on Int, intersection on Sets.
         BinaryOpKind::BitAnd => match (&left, &right) {
             (RuntimeValue::Int(a), RuntimeValue::Int(b)) => Ok(RuntimeValue::Int(a & b)),
+            // A nonnegative mask keeps low bits only, so a promoted integer needs no more than those.
+            (RuntimeValue::BigInt(a), RuntimeValue::Int(b)) | (RuntimeValue::Int(b), RuntimeValue::BigInt(a)) if *b >= 0 => {
+                Ok(RuntimeValue::Int(low_63_bits(a) & b))
+            }
             (RuntimeValue::Bool(a), RuntimeValue::Bool(b)) => Ok(RuntimeValue::Bool(a & b)),
             (RuntimeValue::Set(_), RuntimeValue::Set(_)) => set_binop(&left, &right, SetOp::Intersection),
             _ => Err("`&` requires integer, boolean, or Set operands".to_string()),
-- 
2.43.0


From 4d366707b09b4f64c97ecfb22a3b153096c849e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:03:26 +0000
Subject: [PATCH 34/40] fix: dead stores whose value can fail are kept

---
 .../logicaffeine_compile/src/optimize/dce.rs  | 27 +++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/crates/logicaffeine_compile/src/optimize/dce.rs b/crates/logicaffeine_compile/src/optimize/dce.rs
index 13ca808..926f7d6 100644
--- a/crates/logicaffeine_compile/src/optimize/dce.rs
+++ b/crates/logicaffeine_compile/src/optimize/dce.rs
@@ -1,7 +1,7 @@
 use std::collections::{HashMap, HashSet};
 
 use crate::arena::Arena;
-use crate::ast::stmt::{Expr, Literal, MatchArm, Stmt, StringPart, ClosureBody};
+use crate::ast::stmt::{BinaryOpKind, Expr, Literal, MatchArm, Stmt, StringPart, ClosureBody};
 use crate::intern::Symbol;
 
 /// Collect all symbols read by an expression.
@@ -195,6 +195,26 @@ fn collect_stmt_reads(stmt: &Stmt, reads: &mut HashSet<Symbol>) {
     }
 }
 
+/// Evaluating this expression can neither fail nor have an effect.
+pub(super) fn cannot_fail(expr: &Expr) -> bool {
+    match expr {
+        Expr::Literal(_) | Expr::Identifier(_) => true,
+        Expr::Length { collection } => matches!(collection, Expr::Identifier(_)),
+        Expr::Not { operand } => cannot_fail(operand),
+        Expr::BinaryOp { op, left, right } => {
+            matches!(
+                op,
+                BinaryOpKind::Add | BinaryOpKind::Subtract | BinaryOpKind::Multiply
+                    | BinaryOpKind::Eq | BinaryOpKind::NotEq
+                    | BinaryOpKind::Lt | BinaryOpKind::Gt | BinaryOpKind::LtEq | BinaryOpKind::GtEq
+                    | BinaryOpKind::And | BinaryOpKind::Or
+            ) && cannot_fail(left)
+                && cannot_fail(right)
+        }
+        _ => false,
+    }
+}
+
 /// Dead Store Elimination: remove Set statements that are overwritten before being read.
 fn dead_store_elimination<'a>(
     stmts: Vec<Stmt<'a>>,
@@ -226,7 +246,10 @@ fn dead_store_elimination<'a>(
                         // Previous Set was never read → dead store
                         dead_indices.insert(prev_idx);
                     }
-                    last_set.insert(*target, i);
+                    // A store whose value can fail must stay: dropping it would drop the failure.
+                    if cannot_fail(value) {
+                        last_set.insert(*target, i);
+                    }
                 } else {
                     // Opaque value: conservatively clear all tracking
                     last_set.clear();
-- 
2.43.0


From 93b34dced26cfc1931a50bef47eaf8dc21851a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:03:26 +0000
Subject: [PATCH 35/40] fix: adding zero to text appends it

---
 crates/logicaffeine_compile/src/optimize/fold.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/crates/logicaffeine_compile/src/optimize/fold.rs b/crates/logicaffeine_compile/src/optimize/fold.rs
index 2bafce5..1740f96 100644
--- a/crates/logicaffeine_compile/src/optimize/fold.rs
+++ b/crates/logicaffeine_compile/src/optimize/fold.rs
@@ -595,6 +595,16 @@ fn is_float_one(e: &Expr) -> bool {
     matches!(e, Expr::Literal(Literal::Float(v)) if *v == 1.0)
 }
 
+/// Certainly a Text: a text literal, or `+`/concatenation with one in it.
+fn expr_is_text(e: &Expr) -> bool {
+    match e {
+        Expr::Literal(Literal::Text(_)) | Expr::InterpolatedString(_) => true,
+        Expr::BinaryOp { op: BinaryOpKind::Concat, .. } => true,
+        Expr::BinaryOp { op: BinaryOpKind::Add, left, right } => expr_is_text(left) || expr_is_text(right),
+        _ => false,
+    }
+}
+
 fn is_power_of_two(n: i64) -> Option<u32> {
     if n > 1 && (n & (n - 1)) == 0 {
         Some(n.trailing_zeros())
@@ -615,8 +625,9 @@ fn try_simplify_algebraic<'a>(
         // the sign bit, so the e-graph forbids it ("Float operands never rewrite", egraph/rules.rs).
         // (Subtraction below keeps `x - 0.0 → x`: that one preserves the sign, `-0.0 - 0.0 == -0.0`.)
         BinaryOpKind::Add => {
-            if is_int_zero(right) { return Some(left); }
-            if is_int_zero(left) { return Some(right); }
+            // Text plus zero appends "0".
+            if is_int_zero(right) && !expr_is_text(left) { return Some(left); }
+            if is_int_zero(left) && !expr_is_text(right) { return Some(right); }
             None
         }
         // x - 0 = x
-- 
2.43.0


From b7582934c7f8943c53111857870afc2e30a41b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:03:26 +0000
Subject: [PATCH 36/40] fix: loop-exit and overflowing intervals cover the
 values the program takes

---
 .../src/optimize/abstract_interp.rs           | 103 +++++++++++-------
 1 file changed, 66 insertions(+), 37 deletions(-)

diff --git a/crates/logicaffeine_compile/src/optimize/abstract_interp.rs b/crates/logicaffeine_compile/src/optimize/abstract_interp.rs
index f73d11a..fb803a6 100644
--- a/crates/logicaffeine_compile/src/optimize/abstract_interp.rs
+++ b/crates/logicaffeine_compile/src/optimize/abstract_interp.rs
@@ -44,7 +44,7 @@ impl Bound {
             (Bound::Finite(a), Bound::Finite(b)) => {
                 match a.checked_sub(*b) {
                     Some(r) => Bound::Finite(r),
-                    None => if *a > 0 { Bound::PosInf } else { Bound::NegInf },
+                    None => if *a >= 0 { Bound::PosInf } else { Bound::NegInf },
                 }
             }
             (Bound::PosInf, Bound::PosInf) | (Bound::NegInf, Bound::NegInf) => Bound::NegInf,
@@ -90,7 +90,7 @@ impl Bound {
     /// infinite, its sign flipping when `k < 0`.
     fn div_by(&self, k: i64) -> Bound {
         match self {
-            Bound::Finite(a) => Bound::Finite(a / k),
+            Bound::Finite(a) => a.checked_div(k).map_or(Bound::PosInf, Bound::Finite),
             Bound::NegInf => {
                 if k > 0 {
                     Bound::NegInf
@@ -173,6 +173,16 @@ impl Interval {
         Interval { lo: Bound::Finite(n), hi: Bound::Finite(n) }
     }
 
+    /// The interval between two computed endpoints. An endpoint that ran past
+    /// the `i64` range on its own side still bounds the value by that range's
+    /// end: integers promote past it, they do not stop at an infinity.
+    fn between(lo: Bound, hi: Bound) -> Self {
+        Interval {
+            lo: if lo == Bound::PosInf { Bound::Finite(i64::MAX) } else { lo },
+            hi: if hi == Bound::NegInf { Bound::Finite(i64::MIN) } else { hi },
+        }
+    }
+
     fn top() -> Self {
         Interval { lo: Bound::NegInf, hi: Bound::PosInf }
     }
@@ -264,17 +274,13 @@ impl Interval {
     }
 
     fn add(&self, other: &Interval) -> Interval {
-        Interval {
-            lo: self.lo.add(&other.lo),
-            hi: self.hi.add(&other.hi),
-        }
+        if self.is_bottom() || other.is_bottom() { return Interval::bottom(); }
+        Interval::between(self.lo.add(&other.lo), self.hi.add(&other.hi))
     }
 
     fn sub(&self, other: &Interval) -> Interval {
-        Interval {
-            lo: self.lo.sub(&other.hi),
-            hi: self.hi.sub(&other.lo),
-        }
+        if self.is_bottom() || other.is_bottom() { return Interval::bottom(); }
+        Interval::between(self.lo.sub(&other.hi), self.hi.sub(&other.lo))
     }
 
     fn mul(&self, other: &Interval) -> Interval {
@@ -294,15 +300,16 @@ impl Interval {
             lo = Bound::min_bound(&lo, c);
             hi = Bound::max_bound(&hi, c);
         }
-        Interval { lo, hi }
+        Interval::between(lo, hi)
     }
 
     fn div(&self, other: &Interval) -> Interval {
         if let (Some(a), Some(b)) = (self.is_exact(), other.is_exact()) {
             if b != 0 {
-                // `wrapping_div` matches the runtime (semantics/arith.rs) and
-                // avoids the `i64::MIN / -1` overflow panic of raw `/`.
-                return Interval::exact(a.wrapping_div(b));
+                // `i64::MIN / -1` promotes past the `i64` range at run time.
+                if let Some(q) = a.checked_div(b) {
+                    return Interval::exact(q);
+                }
             }
         }
         // Constant nonzero divisor, arbitrary dividend range. Truncating
@@ -312,9 +319,9 @@ impl Interval {
         // fixpoint can bound `seed / 65536`, `hi / 2`, etc.
         if let Some(k) = other.is_exact() {
             if k > 0 {
-                return Interval { lo: self.lo.div_by(k), hi: self.hi.div_by(k) };
+                return Interval::between(self.lo.div_by(k), self.hi.div_by(k));
             } else if k < 0 {
-                return Interval { lo: self.hi.div_by(k), hi: self.lo.div_by(k) };
+                return Interval::between(self.hi.div_by(k), self.lo.div_by(k));
             }
         }
         Interval::top()
@@ -336,7 +343,7 @@ impl Interval {
         // and a sign-spanning one `[-(|k|-1), |k|-1]`.
         if let Some(k) = other.is_exact() {
             if k != 0 {
-                let m = k.checked_abs().unwrap_or(i64::MAX).saturating_sub(1).max(0);
+                let m = (k.unsigned_abs() - 1) as i64;
                 let nonneg = matches!(self.lo, Bound::Finite(v) if v >= 0);
                 let nonpos = matches!(self.hi, Bound::Finite(v) if v <= 0);
                 let lo = if nonneg { Bound::Finite(0) } else { Bound::Finite(-m) };
@@ -1355,7 +1362,8 @@ fn interp_block<'a>(
             }
 
             Stmt::If { cond, then_block, else_block } => {
-                if let Some(val) = eval_condition(cond, state) {
+                let decided = if super::dce::cannot_fail(cond) { eval_condition(cond, state) } else { None };
+                if let Some(val) = decided {
                     let new_cond = expr_arena.alloc(Expr::Literal(Literal::Boolean(val)));
                     if val {
                         let mut then_state = state.clone();
@@ -1415,7 +1423,8 @@ fn interp_block<'a>(
                 let mut loop_state = state.clone();
 
                 let loop_writes = collect_writes(body);
-                let bounded_var = extract_bounded_var(cond);
+                loop_state.lengths.clear();
+                loop_state.elem.clear();
 
                 // Widen all loop-written variables (including the counter)
                 // to their full possible range before analyzing the body.
@@ -1431,13 +1440,15 @@ fn interp_block<'a>(
 
                 let new_body = interp_nested_block(body, &mut loop_state, expr_arena, stmt_arena);
 
-                // After loop: condition is false (loop exited)
-                narrow_state_negated(cond, state);
-                // Variables written in loop body get widened to top
+                // After loop: everything the body wrote, the counter included, has
+                // an unknown value, and (unless a break left it) the condition is false.
                 for w in &loop_writes {
-                    if Some(*w) != bounded_var {
-                        state.set_var(*w, Interval::top());
-                    }
+                    state.set_var(*w, Interval::top());
+                }
+                state.lengths.clear();
+                state.elem.clear();
+                if !contains_break(body) {
+                    narrow_state_negated(cond, state);
                 }
 
                 result.push(Stmt::While { cond, body: new_body, decreasing });
@@ -1460,6 +1471,8 @@ fn interp_block<'a>(
                 for w in &loop_writes {
                     state.set_var(*w, Interval::top());
                 }
+                state.lengths.clear();
+                state.elem.clear();
 
                 result.push(Stmt::Repeat { pattern, iterable, body: new_body });
             }
@@ -1586,17 +1599,16 @@ fn collect_writes_stmt(stmt: &Stmt, writes: &mut Vec<Symbol>) {
     }
 }
 
-fn extract_bounded_var(cond: &Expr) -> Option<Symbol> {
-    match cond {
-        Expr::BinaryOp { op: BinaryOpKind::Lt | BinaryOpKind::LtEq | BinaryOpKind::Gt | BinaryOpKind::GtEq, left, .. } => {
-            if let Expr::Identifier(sym) = left {
-                Some(*sym)
-            } else {
-                None
-            }
+fn contains_break(block: &[Stmt]) -> bool {
+    block.iter().any(|s| match s {
+        Stmt::Break => true,
+        Stmt::If { then_block, else_block, .. } => {
+            contains_break(then_block) || else_block.map_or(false, |b| contains_break(b))
         }
-        _ => None,
-    }
+        Stmt::Inspect { arms, .. } => arms.iter().any(|a| contains_break(a.body)),
+        Stmt::Zone { body, .. } => contains_break(body),
+        _ => false,
+    })
 }
 
 // ============================================================================
@@ -5329,6 +5341,9 @@ fn rich_walk_loop(
             let cur_len = inside.intervals.get_length(&m);
             let nxt_len = next.intervals.get_length(&m);
             let wid_len = cur_len.widen(&nxt_len);
+            if !wid_len.leq(&cur_len) {
+                stable = false;
+            }
             inside.intervals.set_length(m, wid_len);
 
             // Element bound: DELAYED widening. Join for the first few passes so
@@ -5521,7 +5536,21 @@ fn rich_walk_loop(
         }
         rich_walk_block(body, &mut record_state, facts);
         let mut after = rich_join(st, &inside);
-        if let Some(c) = cond {
+        // `inside` holds only states the guard admits; the state the loop exits
+        // from is the one after the body.
+        let breaks = contains_break(body);
+        for &m in &mutated {
+            let exit = if breaks {
+                Interval::top()
+            } else {
+                after.intervals.get_var(&m).join(&record_state.intervals.get_var(&m))
+            };
+            after.intervals.set_var(m, exit);
+            if breaks {
+                after.intervals.set_length(m, Interval::non_negative());
+            }
+        }
+        if let Some(c) = cond.filter(|_| !breaks) {
             narrow_state_negated(c, &mut after.intervals);
             // Allocation-size fact: a counted build loop establishes a length
             // bound on the array it fills (`st` is the pre-loop entry state —
@@ -5543,7 +5572,7 @@ fn rich_walk_loop(
         *st = after;
     } else {
         // Sound fallback: forget everything the body can write.
-        if let Some(c) = cond {
+        if let Some(c) = cond.filter(|_| !contains_break(body)) {
             narrow_state_negated(c, &mut st.intervals);
         }
         for m in mutated {
-- 
2.43.0


From 92dfa0dce616eeac5de908566fefe32c6054f0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:03:26 +0000
Subject: [PATCH 37/40] fix: inlined calls are not moved ahead of operands that
 can fail

---
 .../src/optimize/inline_leaf.rs                   | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/crates/logicaffeine_compile/src/optimize/inline_leaf.rs b/crates/logicaffeine_compile/src/optimize/inline_leaf.rs
index c90859d..2d6e270 100644
--- a/crates/logicaffeine_compile/src/optimize/inline_leaf.rs
+++ b/crates/logicaffeine_compile/src/optimize/inline_leaf.rs
@@ -295,9 +295,16 @@ fn rewrite_expr<'a>(
 ) -> &'a Expr<'a> {
     match e {
         Expr::Call { function, args } => {
+            // A prelude runs before everything left in place, so nothing left of
+            // a hoisted call may fail: the first failure has to stay the first.
+            let mut total = true;
             let new_args: Vec<&'a Expr<'a>> = args
                 .iter()
-                .map(|a| rewrite_expr(a, cands, ea, sa, interner, counter, prelude))
+                .map(|a| {
+                    let r = if total { rewrite_expr(a, cands, ea, sa, interner, counter, prelude) } else { *a };
+                    total = total && super::dce::cannot_fail(r);
+                    r
+                })
                 .collect();
             if let Some(c) = cands.get(function) {
                 if c.params.len() == new_args.len() {
@@ -310,7 +317,7 @@ fn rewrite_expr<'a>(
             let l = rewrite_expr(left, cands, ea, sa, interner, counter, prelude);
             // The right operand of `and`/`or` is conditionally evaluated;
             // hoisting a call out of it would always run it. Leave it intact.
-            let r = if matches!(op, BinaryOpKind::And | BinaryOpKind::Or) {
+            let r = if matches!(op, BinaryOpKind::And | BinaryOpKind::Or) || !super::dce::cannot_fail(l) {
                 *right
             } else {
                 rewrite_expr(right, cands, ea, sa, interner, counter, prelude)
@@ -323,7 +330,7 @@ fn rewrite_expr<'a>(
         }
         Expr::Index { collection, index } => {
             let c = rewrite_expr(collection, cands, ea, sa, interner, counter, prelude);
-            let i = rewrite_expr(index, cands, ea, sa, interner, counter, prelude);
+            let i = if super::dce::cannot_fail(c) { rewrite_expr(index, cands, ea, sa, interner, counter, prelude) } else { *index };
             ea.alloc(Expr::Index { collection: c, index: i })
         }
         Expr::Length { collection } => {
@@ -381,7 +388,7 @@ fn rewrite_stmt<'a>(
         Stmt::SetIndex { collection, index, value } => {
             let mut prelude = Vec::new();
             let i = rewrite_expr(index, cands, ea, sa, interner, counter, &mut prelude);
-            let v = rewrite_expr(value, cands, ea, sa, interner, counter, &mut prelude);
+            let v = if super::dce::cannot_fail(i) { rewrite_expr(value, cands, ea, sa, interner, counter, &mut prelude) } else { *value };
             out.extend(prelude);
             out.push(Stmt::SetIndex { collection: *collection, index: i, value: v });
         }
-- 
2.43.0


From 7a661dea84106cee76c5e259d16b1121f1531d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:25:24 +0000
Subject: [PATCH 38/40] fix: native value numbering forgets a sum that
 overwrites its operand

---
 crates/logicaffeine_jit/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/logicaffeine_jit/src/lib.rs b/crates/logicaffeine_jit/src/lib.rs
index 5ea1bdf..f762b58 100644
--- a/crates/logicaffeine_jit/src/lib.rs
+++ b/crates/logicaffeine_jit/src/lib.rs
@@ -4579,6 +4579,9 @@ fn copy_propagate(
                 Some(h) if h != dst => {
                     root.insert(dst, h);
                 }
+                // An op that overwrites its own operand leaves no slot to find the
+                // key by: the same operands now compute something else.
+                _ if dst == k.1 || dst == k.2 => {}
                 _ => {
                     value_holder.insert(k, dst);
                 }
-- 
2.43.0


From 6c6694c669ffaf08a5e7262bfb7a9e29ae54f948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:25:24 +0000
Subject: [PATCH 39/40] fix: counting the trips of a loop with a bound near the
 64-bit limits does not overflow

---
 crates/logicaffeine_compile/src/codegen/narrow.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/logicaffeine_compile/src/codegen/narrow.rs b/crates/logicaffeine_compile/src/codegen/narrow.rs
index e99cf7e..7677622 100644
--- a/crates/logicaffeine_compile/src/codegen/narrow.rs
+++ b/crates/logicaffeine_compile/src/codegen/narrow.rs
@@ -464,7 +464,7 @@ fn loop_ctx(cond: &Expr, prior: &[Stmt]) -> LoopCtx {
     });
     let trip = match (iv_start(prior, iv), bound) {
         (Some(s), Some(b)) => {
-            let t = if inclusive { b - s + 1 } else { b - s };
+            let t = b.saturating_sub(s).saturating_add(inclusive as i64);
             Some(t.max(0))
         }
         _ => None,
-- 
2.43.0


From c1eceb135d1a8c57ba7e143eab4e85bef5eae812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:33:18 +0000
Subject: [PATCH 40/40] fix: a loop is peeled only when its counter is known to
 start at the tested value

---
 .../src/optimize/abstract_interp.rs           |  2 +-
 .../logicaffeine_compile/src/optimize/licm.rs | 56 +++++++++++--------
 2 files changed, 35 insertions(+), 23 deletions(-)

diff --git a/crates/logicaffeine_compile/src/optimize/abstract_interp.rs b/crates/logicaffeine_compile/src/optimize/abstract_interp.rs
index fb803a6..493750b 100644
--- a/crates/logicaffeine_compile/src/optimize/abstract_interp.rs
+++ b/crates/logicaffeine_compile/src/optimize/abstract_interp.rs
@@ -1599,7 +1599,7 @@ fn collect_writes_stmt(stmt: &Stmt, writes: &mut Vec<Symbol>) {
     }
 }
 
-fn contains_break(block: &[Stmt]) -> bool {
+pub(super) fn contains_break(block: &[Stmt]) -> bool {
     block.iter().any(|s| match s {
         Stmt::Break => true,
         Stmt::If { then_block, else_block, .. } => {
diff --git a/crates/logicaffeine_compile/src/optimize/licm.rs b/crates/logicaffeine_compile/src/optimize/licm.rs
index 43783eb..7818b39 100644
--- a/crates/logicaffeine_compile/src/optimize/licm.rs
+++ b/crates/logicaffeine_compile/src/optimize/licm.rs
@@ -510,33 +510,42 @@ fn extract_eq_boundary(expr: &Expr) -> Option<(Symbol, i64)> {
     }
 }
 
-/// Find the start value of a counter variable from the enclosing context.
-/// Looks for the pattern: counter starts at some value based on the While condition.
-/// For `While i < n` with `i` starting at 0, the start value is 0.
-fn find_counter_start(counter: Symbol, body: &[Stmt]) -> Option<i64> {
-    // Check if the counter is incremented in the body (Set counter to counter + 1)
-    for stmt in body {
-        if let Stmt::Set { target, value } = stmt {
-            if *target == counter {
-                if let Expr::BinaryOp { op: crate::ast::stmt::BinaryOpKind::Add, left, right } = &**value {
-                    if let Expr::Identifier(sym) = &**left {
-                        if *sym == counter {
-                            if let Expr::Literal(crate::ast::stmt::Literal::Number(1)) = &**right {
-                                return Some(0);
-                            }
-                        }
-                    }
-                }
+/// Whether `counter` is known to hold `start` after `preceding`: its last write
+/// there is a plain assignment of that literal.
+fn counter_starts_at(counter: Symbol, start: i64, preceding: &[Stmt]) -> bool {
+    for stmt in preceding.iter().rev() {
+        match stmt {
+            Stmt::Let { var: target, value, .. } | Stmt::Set { target, value } if *target == counter => {
+                return matches!(&**value, Expr::Literal(crate::ast::stmt::Literal::Number(n)) if *n == start);
             }
+            _ if collect_loop_writes(std::slice::from_ref(stmt)).contains(&counter) => return false,
+            _ => {}
         }
     }
-    None
+    false
+}
+
+/// Whether the only write of `counter` in `body` is one top-level
+/// `Set counter to counter + 1` at or after statement `from`.
+fn only_incremented_after(counter: Symbol, from: usize, body: &[Stmt]) -> bool {
+    let mut writes = body.iter().enumerate().filter(|(_, s)| {
+        collect_loop_writes(std::slice::from_ref(*s)).contains(&counter)
+    });
+    let (Some((idx, Stmt::Set { value, .. })), None) = (writes.next(), writes.next()) else {
+        return false;
+    };
+    idx >= from
+        && matches!(&**value,
+            Expr::BinaryOp { op: crate::ast::stmt::BinaryOpKind::Add, left, right }
+                if matches!(&**left, Expr::Identifier(sym) if *sym == counter)
+                    && matches!(&**right, Expr::Literal(crate::ast::stmt::Literal::Number(1))))
 }
 
 /// Try to peel the first iteration of a While loop.
 /// Detects `If counter == start: ... Otherwise: ...` in the body and extracts
 /// the first iteration, simplifying the remaining loop body.
 fn try_peel<'a>(
+    preceding: &[Stmt<'a>],
     body: &'a [Stmt<'a>],
     while_cond: &'a Expr<'a>,
     decreasing: Option<&'a Expr<'a>>,
@@ -561,9 +570,12 @@ fn try_peel<'a>(
 
     let (counter_sym, boundary_value) = extract_eq_boundary(if_cond)?;
 
-    // Only peel first iteration (boundary == 0 or start value)
-    let start_value = find_counter_start(counter_sym, body)?;
-    if boundary_value != start_value {
+    // Only peel when the first iteration, and no later one, meets the boundary,
+    // and no Break would be left outside its loop.
+    if !counter_starts_at(counter_sym, boundary_value, preceding)
+        || !only_incremented_after(counter_sym, if_idx + 1, body)
+        || super::abstract_interp::contains_break(body)
+    {
         return None;
     }
 
@@ -732,7 +744,7 @@ fn licm_stmts_with<'a>(
                 }
 
                 // Loop peeling: extract first iteration when body has If counter==start
-                if let Some(peeled) = try_peel(body, cond, decreasing, expr_arena, stmt_arena, interner, hoist_indexed_loads) {
+                if let Some(peeled) = try_peel(&result, body, cond, decreasing, expr_arena, stmt_arena, interner, hoist_indexed_loads) {
                     result.extend(peeled);
                     continue;
                 }
-- 
2.43.0

