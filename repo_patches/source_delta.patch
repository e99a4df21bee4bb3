From 1c7aaee28c1b708f3263482a55fcd32c38125841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:14:14 +0000
Subject: [PATCH 01/10] fix: use the published eccentricity threshold for the
 12 h resonance term G520

The published SDP4 code selects the high-eccentricity polynomial only for
e > 0.715. An orbit with an eccentricity of exactly 0.715 (which a TLE can
represent) was given the wrong polynomial.
---
 src/deep_space.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/deep_space.rs b/src/deep_space.rs
index 1ff5c48..7946696 100644
--- a/src/deep_space.rs
+++ b/src/deep_space.rs
@@ -487,13 +487,13 @@ pub(crate) fn constants(
                             };
 
                             // G₅₂₀ = │ - 532.114 + 3017.977 e₀ - 5740.032 e₀² + 3708.276 e₀³ if e₀ ≤ 0.65
-                            //        │ 1464.74 - 4664.75 e₀ + 3763.64 e₀²                    if 0.65 < e₀ < 0.715
+                            //        │ 1464.74 - 4664.75 e₀ + 3763.64 e₀²                    if 0.65 < e₀ ≤ 0.715
                             //        │ - 5149.66 + 29936.92 e₀ - 54087.36 e₀² + 31324.56 e₀³ otherwise
                             let g520 = if orbit_0.eccentricity <= 0.65 {
                                 -532.114 + 3017.977 * orbit_0.eccentricity
                                     - 5740.032 * orbit_0.eccentricity.powi(2)
                                     + 3708.276 * orbit_0.eccentricity.powi(3)
-                            } else if orbit_0.eccentricity < 0.715 {
+                            } else if orbit_0.eccentricity <= 0.715 {
                                 1464.74 - 4664.75 * orbit_0.eccentricity
                                     + 3763.64 * orbit_0.eccentricity.powi(2)
                             } else {
-- 
2.43.0


From 5ad8e01f69ccf3ef8f6da9cc7b24e19e7c7e0add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:17:53 +0000
Subject: [PATCH 02/10] fix: stop the resonance integration when the target
 time is not finite

Propagating a resonant deep-space orbit to a NaN or infinite time looped
forever. Other orbits already return an out of range eccentricity error for
such times, which is now also the case for resonant orbits.
---
 src/deep_space.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/deep_space.rs b/src/deep_space.rs
index 7946696..59d6799 100644
--- a/src/deep_space.rs
+++ b/src/deep_space.rs
@@ -181,10 +181,11 @@ impl ResonanceState {
                     )
                 }
             };
-            if (t - delta_t)
-                .partial_cmp(&self.t)
-                .unwrap_or(Ordering::Equal)
-                == ordering
+            if !t.is_finite()
+                || (t - delta_t)
+                    .partial_cmp(&self.t)
+                    .unwrap_or(Ordering::Equal)
+                    == ordering
             {
                 return (
                     // p₂₈ = (kₑ / (nᵢ + ṅᵢ (t - tᵢ) + ¹/₂ n̈ᵢ (t - tᵢ)²))²ᐟ³
-- 
2.43.0


From 0d8b5b46593cabaa577cb84e885a87dc709aecaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:17:53 +0000
Subject: [PATCH 03/10] fix: return an error when the semi-latus rectum is not
 a number

The resonance integration can diverge and yield a negative mean motion, in
which case propagate returned a prediction made of NaNs.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2760f85..a8defd5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -706,7 +706,7 @@ impl Constants {
 
         // pₗ = a (1 - p₃₉)
         let pl = a * (1.0 - p39);
-        if pl < 0.0 {
+        if pl.is_nan() || pl < 0.0 {
             Err(gp::Error::NegativeSemiLatusRectum { t: t.0 })
         } else {
             // p₄₀ = aₓₙ sin(E + ω) - aᵧₙ cos(E + ω)
-- 
2.43.0


From 16a4c69497cbe917dad6e027cefd87d32a0ed995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:20:01 +0000
Subject: [PATCH 04/10] fix: refuse a NaN eccentricity when initializing the
 constants

The error documents the range [0, 1[, which does not contain NaN.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index a8defd5..6752302 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -291,7 +291,7 @@ impl Constants {
         drag_term: f64,
         orbit_0: propagator::Orbit,
     ) -> core::result::Result<Self, OutOfRangeEpochEccentricity> {
-        if orbit_0.eccentricity < 0.0 || orbit_0.eccentricity >= 1.0 {
+        if !(0.0..1.0).contains(&orbit_0.eccentricity) {
             Err(OutOfRangeEpochEccentricity(orbit_0.eccentricity))
         } else {
             // p₁ = cos I₀
-- 
2.43.0


From c293465cb3c083289a285ed969536d3fd3f51148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:36:57 +0000
Subject: [PATCH 05/10] fix: report a bad checksum instead of overflowing on
 non-digit bytes

A checksum byte below '0' made the subtraction overflow, which panics in
builds with overflow checks. Such a byte is now reported as a bad checksum
in every build.
---
 src/tle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tle.rs b/src/tle.rs
index 496ded3..5896aab 100644
--- a/src/tle.rs
+++ b/src/tle.rs
@@ -640,7 +640,7 @@ impl Elements {
                     _ => accumulator,
                 })
                 % 10) as u8
-                != content[68] - b'0'
+                != content[68].wrapping_sub(b'0')
             {
                 return Err(Error {
                     what: ErrorWhat::BadChecksum,
-- 
2.43.0


From 70abb1cc136988f45854d7b05787158f74c20bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:36:57 +0000
Subject: [PATCH 06/10] fix: refuse TLE fields that do not denote a finite
 number

The float parser accepts "nan", "inf" and numbers that overflow to
infinity, so corrupted columns gave elements with non-finite values. A
mantissa with its own exponent letter could overflow in the same way once
multiplied by the power of ten. Both are now reported as malformed fields.
---
 src/tle.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/tle.rs b/src/tle.rs
index 5896aab..3fc5277 100644
--- a/src/tle.rs
+++ b/src/tle.rs
@@ -133,10 +133,14 @@ impl FromU8 for u64 {
     }
 }
 impl FromU8 for f64 {
-    type Err = core::num::ParseFloatError;
+    type Err = ();
     fn from_u8(s: &[u8]) -> core::result::Result<Self, Self::Err> {
         // unsafe: parse calls dec2flt which converts back to bytes.
-        unsafe { core::str::from_utf8_unchecked(s) }.parse()
+        match unsafe { core::str::from_utf8_unchecked(s) }.parse::<f64>() {
+            // parse accepts "nan" and "inf", and overflows to infinity
+            Ok(value) if value.is_finite() => Ok(value),
+            _ => Err(()),
+        }
     }
 }
 
@@ -215,6 +219,15 @@ impl DecimalPointAssumedRepresentation for [u8] {
             raw_buffer[1..trimmed.len() + 1].copy_from_slice(trimmed);
             length = trimmed.len() + 1;
         }
+        // the exponent, if any, has its own columns
+        if raw_buffer[0..length].contains(&b'e') || raw_buffer[0..length].contains(&b'E') {
+            return Err(Error {
+                what: ErrorWhat::ExpectedFloatWithAssumedDecimalPoint,
+                line,
+                start,
+                end,
+            });
+        }
         raw_buffer[0..length].parse::<f64>().map_err(|_| Error {
             what: ErrorWhat::ExpectedFloatWithAssumedDecimalPoint,
             line,
-- 
2.43.0


From c5c5b30571c46c7693499c075617b2c15eea501a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:36:57 +0000
Subject: [PATCH 07/10] fix: refuse OMM ephemeris types that do not fit a byte

A JSON number above 255 was truncated to its low byte, whereas the same
number in a string was refused. Both are now refused.
---
 src/tle.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tle.rs b/src/tle.rs
index 3fc5277..8c27881 100644
--- a/src/tle.rs
+++ b/src/tle.rs
@@ -436,10 +436,10 @@ where
     D: serde::de::Deserializer<'de>,
 {
     match serde_json::value::Value::deserialize(deserializer)? {
-        serde_json::value::Value::Number(number) => match number.as_u64() {
-            Some(value) => Ok(value as u8),
-            None => Err(serde::de::Error::custom("parsing the number as u64 failed")),
-        },
+        serde_json::value::Value::Number(number) => number
+            .as_u64()
+            .and_then(|value| u8::try_from(value).ok())
+            .ok_or_else(|| serde::de::Error::custom("parsing the number as u8 failed")),
         serde_json::value::Value::String(string) => {
             string.parse().map_err(serde::de::Error::custom)
         }
-- 
2.43.0


From 3c77fc23b9e6a1aede39afb95678343401e83dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:36:57 +0000
Subject: [PATCH 08/10] fix: refuse non-finite numbers in OMM strings

Strings such as "nan", "inf" or "1e999" were read as non-finite element
values, although JSON numbers can not express them.
---
 src/tle.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tle.rs b/src/tle.rs
index 8c27881..91cef0d 100644
--- a/src/tle.rs
+++ b/src/tle.rs
@@ -457,7 +457,10 @@ where
             .as_f64()
             .ok_or_else(|| serde::de::Error::custom("parsing the number as f64 failed")),
         serde_json::value::Value::String(string) => {
-            string.parse().map_err(serde::de::Error::custom)
+            match string.parse::<f64>().map_err(serde::de::Error::custom)? {
+                value if value.is_finite() => Ok(value),
+                _ => Err(serde::de::Error::custom("expected a finite number")),
+            }
         }
         _ => Err(serde::de::Error::custom("expected a f64 or string")),
     }
-- 
2.43.0


From 808b47054de8c49b8824caf9412e0e68d587dc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:41:58 +0000
Subject: [PATCH 09/10] fix: use signed years in the AFSPC epoch expression

Years were converted to unsigned integers, so dates before year 1 made the
expression overflow: a panic with overflow checks, a meaningless epoch
without. The standard expression already uses signed integers.
---
 src/tle.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/tle.rs b/src/tle.rs
index 91cef0d..1a797ae 100644
--- a/src/tle.rs
+++ b/src/tle.rs
@@ -492,10 +492,9 @@ pub fn julian_years_since_j2000_afspc_compatibility_mode(datetime: &chrono::Naiv
     //         + (((nsᵤ / 10⁹ + sᵤ) / 60 + minᵤ) / 60 + hᵤ) / 24
     //         - 2451545)
     //         / 365.25
-    ((367 * datetime.year() as u32
-        - (7 * (datetime.year() as u32 + (datetime.month() + 9) / 12)) / 4
-        + 275 * datetime.month() / 9
-        + datetime.day()) as f64
+    ((367 * datetime.year() - (7 * (datetime.year() + (datetime.month() as i32 + 9) / 12)) / 4
+        + 275 * datetime.month() as i32 / 9
+        + datetime.day() as i32) as f64
         + 1721013.5
         + (((datetime.nanosecond() as f64 / 1e9 + datetime.second() as f64) / 60.0
             + datetime.minute() as f64)
-- 
2.43.0


From 3c5a8e8b1581c70b0338000d7cee502de830131a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:41:58 +0000
Subject: [PATCH 10/10] fix: report NaN minutes since epoch as a conversion
 error

NaN passed both range comparisons and was then cast to zero nanoseconds,
so converting NaN minutes returned the epoch itself.
---
 src/tle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tle.rs b/src/tle.rs
index 1a797ae..8b4a198 100644
--- a/src/tle.rs
+++ b/src/tle.rs
@@ -930,7 +930,7 @@ impl Elements {
         minutes_since_epoch: &MinutesSinceEpoch,
     ) -> core::result::Result<chrono::NaiveDateTime, MinutesSinceEpochToDatetimeError> {
         let nanoseconds = minutes_since_epoch.0 * 60e9;
-        if nanoseconds > i64::MAX as f64 || nanoseconds < i64::MIN as f64 {
+        if nanoseconds.is_nan() || nanoseconds > i64::MAX as f64 || nanoseconds < i64::MIN as f64 {
             Err(MinutesSinceEpochToDatetimeError::MinutesToNanoseconds(
                 minutes_since_epoch.0,
             ))
-- 
2.43.0

