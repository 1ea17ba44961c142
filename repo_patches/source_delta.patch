From e0f219f7f6209f0d5278315a990050d7c294ce2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:13 +0000
Subject: [PATCH 01/39] fix: Date::try_from_ymd overflows negating year
 i32::MIN

---
 src/date.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/date.rs b/src/date.rs
index 22f81d0..d854bdd 100644
--- a/src/date.rs
+++ b/src/date.rs
@@ -75,7 +75,7 @@ impl Date {
         // Handle negative years as BC
         if tm.year < 0 {
             bc = true;
-            tm.year = -tm.year;
+            tm.year = tm.year.checked_neg().ok_or_else(DateTimeError::overflow)?;
         }
 
         tm.validate_date(DTK_DATE_M, false, false, bc)?;
-- 
2.43.0


From 138992a897af9e274805cf8ee27a78ab481afa04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:36 +0000
Subject: [PATCH 02/39] fix: the month abbreviation Feb is not recognised

---
 src/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/token.rs b/src/token.rs
index 532bb64..e1f6bcf 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -335,7 +335,7 @@ const DATE_TOKEN_TABLE: [DateToken; 280] = [
     DateToken::new(b"egt", TZ, -3600),     // East Greenland Time
     DateToken::new(EPOCH, RESERV, Epoch.value()), // "epoch" reserved for system epoch time
     DateToken::new(b"est", TZ, -18000),    // Eastern Standard Time
-    DateToken::new(b"fe", MONTH, 2),
+    DateToken::new(b"feb", MONTH, 2),
     DateToken::new(b"february", MONTH, 2),
     DateToken::new(b"fjst", DTZ, -46800), // Fiji Summer Time (13 hour offset!)
     DateToken::new(b"fjt", TZ, -43200),   // Fiji Time
-- 
2.43.0


From e11bd8fb39b90a1d8c9b94b5271b244926c44a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:37 +0000
Subject: [PATCH 03/39] fix: truncating a late December date to its week lands
 two years early

---
 src/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common.rs b/src/common.rs
index 7e658e9..3d1d22d 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -147,7 +147,7 @@ impl PgTime {
             self.year -= 1;
         }
         if woy <= 1 && self.mon == MONTHS_PER_YEAR {
-            self.year -= 1;
+            self.year += 1;
         }
         iso_week_to_date(woy, self);
         self.hour = 0;
-- 
2.43.0


From a892c5eac7c09efdd833cb8318f9539658569fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 04/39] fix: Postgres style DMY dates print mixed separators
 that do not read back

---
 src/date.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/date.rs b/src/date.rs
index d854bdd..d948bcf 100644
--- a/src/date.rs
+++ b/src/date.rs
@@ -345,12 +345,13 @@ fn format_date(
                 offset += pg_ltostr_zeropad(&mut s[offset..], tm.mday, 2);
                 offset = set_one_byte(s, offset, b'-');
                 offset += pg_ltostr_zeropad(&mut s[offset..], tm.mon, 2);
+                offset = set_one_byte(s, offset, b'-');
             } else {
                 offset += pg_ltostr_zeropad(&mut s[offset..], tm.mon, 2);
                 offset = set_one_byte(s, offset, b'.');
                 offset += pg_ltostr_zeropad(&mut s[offset..], tm.mday, 2);
+                offset = set_one_byte(s, offset, b'.');
             }
-            offset = set_one_byte(s, offset, b'.');
             let year = if tm.year > 0 { tm.year } else { -(tm.year - 1) };
             offset += pg_ltostr_zeropad(&mut s[offset..], year, 4);
         }
-- 
2.43.0


From 9906db1f8a62aa3f3285214bc5d02b1c49aa5f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:40 +0000
Subject: [PATCH 05/39] fix: converting an interval near the 64-bit limit to a
 time overflows

---
 src/time.rs | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/time.rs b/src/time.rs
index b6ed431..db3d628 100644
--- a/src/time.rs
+++ b/src/time.rs
@@ -262,15 +262,7 @@ impl TryFrom<Timestamp> for Option<Time> {
 impl From<Interval> for Time {
     #[inline]
     fn from(value: Interval) -> Self {
-        let mut result = value.time();
-        if result >= USECS_PER_DAY {
-            let days = result / USECS_PER_DAY;
-            result -= days * USECS_PER_DAY;
-        } else if result < 0 {
-            let days = (-result + USECS_PER_DAY - 1) / USECS_PER_DAY;
-            result += days * USECS_PER_DAY;
-        }
-        Time::from(result)
+        Time::from(value.time().rem_euclid(USECS_PER_DAY))
     }
 }
 
-- 
2.43.0


From e40d0f9ff1b1e2caf2767d3d180fd0b1c8632b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:41 +0000
Subject: [PATCH 06/39] fix: adding a huge interval to a time wraps around the
 64-bit range

---
 src/time.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/time.rs b/src/time.rs
index db3d628..1974baf 100644
--- a/src/time.rs
+++ b/src/time.rs
@@ -147,7 +147,8 @@ impl Time {
     /// `Time` Adds `Interval`.
     #[inline]
     pub fn add_interval(self, span: Interval) -> Time {
-        let mut result = self.value().wrapping_add(span.time());
+        // whole days do not matter, and dropping them first avoids overflow.
+        let mut result = self.value() % USECS_PER_DAY + span.time() % USECS_PER_DAY;
         result -= result / USECS_PER_DAY * USECS_PER_DAY;
         if result < 0 {
             result += USECS_PER_DAY;
@@ -165,7 +166,8 @@ impl Time {
     /// `Time` subtracts `Interval`.
     #[inline]
     pub fn sub_interval(self, span: Interval) -> Time {
-        let mut result = self.value().wrapping_sub(span.time());
+        // whole days do not matter, and dropping them first avoids overflow.
+        let mut result = self.value() % USECS_PER_DAY - span.time() % USECS_PER_DAY;
         result -= result / USECS_PER_DAY * USECS_PER_DAY;
         if result < 0 {
             result += USECS_PER_DAY;
-- 
2.43.0


From 96abd6694ebb1b313c98dd4bb26c69a1d74683c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:43 +0000
Subject: [PATCH 07/39] fix: Time::try_from_hms accepts NaN seconds

---
 src/time.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/time.rs b/src/time.rs
index 1974baf..8449b81 100644
--- a/src/time.rs
+++ b/src/time.rs
@@ -55,6 +55,7 @@ impl Time {
         if h < 0
             || m < 0
             || m > MINS_PER_HOUR - 1
+            || s.is_nan()
             || s < 0.0
             || s > SECS_PER_MINUTE as f64
             || h > HOURS_PER_DAY
-- 
2.43.0


From cf8a305b9ac8b7e1f2c0115a590fa89a8d35af33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:08 +0000
Subject: [PATCH 08/39] fix: adding an interval to a timestamp wraps around the
 64-bit range

---
 src/timestamp.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/timestamp.rs b/src/timestamp.rs
index 0ed9903..48e636e 100644
--- a/src/timestamp.rs
+++ b/src/timestamp.rs
@@ -294,7 +294,9 @@ impl Timestamp {
                 timestamp = tm.to_timestamp(fsec, None)?;
             }
 
-            timestamp = timestamp.wrapping_add(span.time());
+            timestamp = timestamp
+                .checked_add(span.time())
+                .ok_or_else(DateTimeError::overflow)?;
 
             if !is_valid_timestamp(timestamp) {
                 return Err(DateTimeError::invalid(format!(
-- 
2.43.0


From 31e252e47e928954f84b668f5da804c128bc74d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 09/39] fix: the difference of distant timestamps overflows

---
 src/timestamp.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/timestamp.rs b/src/timestamp.rs
index 48e636e..8d82b15 100644
--- a/src/timestamp.rs
+++ b/src/timestamp.rs
@@ -347,7 +347,10 @@ impl Timestamp {
             )));
         }
 
-        let time = self.value() - timestamp.value();
+        let time = self
+            .value()
+            .checked_sub(timestamp.value())
+            .ok_or_else(DateTimeError::overflow)?;
 
         //	This is wrong, but removing it breaks a lot of regression tests.
         // For example:
-- 
2.43.0


From 4b765b3f977946617e82c072715a4163333fbeee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:11 +0000
Subject: [PATCH 10/39] fix: rounding the last timestamp to a precision leaves
 the range

---
 src/timestamp.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/timestamp.rs b/src/timestamp.rs
index 8d82b15..cb21988 100644
--- a/src/timestamp.rs
+++ b/src/timestamp.rs
@@ -231,17 +231,21 @@ impl Timestamp {
                 )));
             }
 
-            if self.value() >= 0 {
-                let v = ((self.value() + TIMESTAMP_OFFSETS[typmod as usize])
+            let v = if self.value() >= 0 {
+                ((self.value() + TIMESTAMP_OFFSETS[typmod as usize])
                     / TIMESTAMP_SCALES[typmod as usize])
-                    * TIMESTAMP_SCALES[typmod as usize];
-                Ok(Timestamp::new(v))
+                    * TIMESTAMP_SCALES[typmod as usize]
             } else {
-                let v = -((((-self.value()) + TIMESTAMP_OFFSETS[typmod as usize])
+                -((((-self.value()) + TIMESTAMP_OFFSETS[typmod as usize])
                     / TIMESTAMP_SCALES[typmod as usize])
-                    * TIMESTAMP_SCALES[typmod as usize]);
-                Ok(Timestamp::new(v))
+                    * TIMESTAMP_SCALES[typmod as usize])
+            };
+
+            // rounding up the last second leaves the range.
+            if !is_valid_timestamp(v) {
+                return Err(DateTimeError::overflow());
             }
+            Ok(Timestamp::new(v))
         } else {
             Ok(self)
         }
-- 
2.43.0


From 084ce38c286c44bffff995e477c709d473a99671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:12 +0000
Subject: [PATCH 11/39] fix: truncating an infinite timestamp gives a finite
 value or an error

---
 src/timestamp.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/timestamp.rs b/src/timestamp.rs
index cb21988..2cbad01 100644
--- a/src/timestamp.rs
+++ b/src/timestamp.rs
@@ -883,6 +883,10 @@ impl DateTime for Timestamp {
     /// Truncates `Timestamp` to specified units.
     #[inline]
     fn truncate(&self, ty: FieldType, unit: DateUnit) -> Result<Self, DateTimeError> {
+        if self.is_infinite() {
+            return Ok(*self);
+        }
+
         match ty {
             FieldType::Unit => {
                 let mut tm = PgTime::new();
-- 
2.43.0


From 6280e8a1c8707ea3d75de5ee20b495e1c8ffeb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:27 +0000
Subject: [PATCH 12/39] fix: the age of an infinite timestamp is a garbage
 finite interval

---
 src/timestamp.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/timestamp.rs b/src/timestamp.rs
index 2cbad01..888d2e5 100644
--- a/src/timestamp.rs
+++ b/src/timestamp.rs
@@ -391,6 +391,13 @@ impl Timestamp {
     /// is done.
     #[inline]
     pub fn age(self, timestamp: Timestamp) -> Result<Interval, DateTimeError> {
+        if self.is_infinite() || timestamp.is_infinite() {
+            return Err(DateTimeError::invalid(format!(
+                "age of infinite, left: {:?}, right: {:?}",
+                self, timestamp
+            )));
+        }
+
         let mut tm: PgTime = PgTime::new();
         let mut tm1: PgTime = PgTime::new();
         let mut tm2: PgTime = PgTime::new();
-- 
2.43.0


From 0739131c037348a6e218c73257f18035c4525011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:28 +0000
Subject: [PATCH 13/39] fix: intervals of more than 35 million hours overflow
 when put together

---
 src/interval.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/interval.rs b/src/interval.rs
index 44f45dc..e074f61 100644
--- a/src/interval.rs
+++ b/src/interval.rs
@@ -397,8 +397,11 @@ impl Interval {
 
         let month = total_months as i32;
         let day = tm.mday;
-        let time =
-            (((((tm.hour * 60) + tm.min) as i64 * 60) + tm.sec as i64) * USECS_PER_SEC) + fsec;
+        let secs = (tm.hour as i64 * 60 + tm.min as i64) * 60 + tm.sec as i64;
+        let time = secs
+            .checked_mul(USECS_PER_SEC)
+            .and_then(|t| t.checked_add(fsec))
+            .ok_or_else(DateTimeError::overflow)?;
         Ok(Self::from_mdt(month, day, time))
     }
 
-- 
2.43.0


From 5a1b25196229808d7678a119a4e81b7dab8ddcf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:51 +0000
Subject: [PATCH 14/39] fix: interval equality and hash disagree with the order

---
 src/interval.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/interval.rs b/src/interval.rs
index e074f61..02e5f33 100644
--- a/src/interval.rs
+++ b/src/interval.rs
@@ -20,6 +20,7 @@ use crate::parse::{decode_interval, decode_iso8601_interval, parse_date_time};
 use crate::token::*;
 use crate::{DateTime, DateUnit, FieldType, IntervalStyle, Time};
 use std::cmp::Ordering;
+use std::hash::{Hash, Hasher};
 use std::mem::MaybeUninit;
 use std::ops::Add;
 
@@ -70,7 +71,7 @@ const fn interval_precision(t: i32) -> i32 {
 }
 
 /// Interval represents delta time.
-#[derive(Copy, Clone, Debug, Eq, PartialEq, Hash)]
+#[derive(Copy, Clone, Debug)]
 #[repr(C)]
 pub struct Interval {
     /// All time units other than days, months and years.
@@ -994,6 +995,23 @@ impl Add<Interval> for Interval {
     }
 }
 
+// Equality and hash have to agree with the order, which compares total lengths.
+impl PartialEq for Interval {
+    #[inline]
+    fn eq(&self, other: &Self) -> bool {
+        self.cmp(other) == Ordering::Equal
+    }
+}
+
+impl Eq for Interval {}
+
+impl Hash for Interval {
+    #[inline]
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        i128::from(*self).hash(state);
+    }
+}
+
 impl PartialOrd for Interval {
     #[inline]
     fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
-- 
2.43.0


From 41b7eef8ae0238a72b0dd98093d1a830db539557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:43 +0000
Subject: [PATCH 15/39] fix: formatting intervals with the smallest day or hour
 part overflows

---
 src/interval.rs | 64 +++++++++++++++++++++++++++----------------------
 1 file changed, 36 insertions(+), 28 deletions(-)

diff --git a/src/interval.rs b/src/interval.rs
index 02e5f33..e8ac344 100644
--- a/src/interval.rs
+++ b/src/interval.rs
@@ -654,8 +654,11 @@ fn format_interval(
             let has_year_month = year != 0 || mon != 0;
             let has_day_time = mday != 0 || hour != 0 || min != 0 || sec != 0 || fsec != 0;
             let has_day = mday != 0;
-            let sql_standard_value =
-                !(has_negative && has_positive || has_year_month && has_day_time);
+            // the smallest integers can not be negated, so they keep their own sign.
+            let sql_standard_value = !(has_negative && has_positive
+                || has_year_month && has_day_time
+                || mday == std::i32::MIN
+                || hour == std::i32::MIN);
             // SQL Standard wants only 1 "<sign>" preceding the whole
             // interval. but can't do that if mixed signs.
             if has_negative && sql_standard_value {
@@ -678,22 +681,21 @@ fn format_interval(
                 // mixed sign components.
 
                 let year_sign = if year < 0 || mon < 0 { b'-' } else { b'+' };
-                let day_sign = if mday < 0 { b'-' } else { b'+' };
-                let sec_sign = if hour < 0 || min < 0 || sec < 0 || fsec < 0 {
-                    b'-'
-                } else {
-                    b'+'
-                };
+                let sec_negative = hour < 0 || min < 0 || sec < 0 || fsec < 0;
                 offset = set_one_byte(s, offset, year_sign);
                 offset += pg_ltostr(&mut s[offset..], year.abs());
                 offset = set_one_byte(s, offset, b'-');
                 offset += pg_ltostr(&mut s[offset..], mon.abs());
                 offset = set_one_byte(s, offset, b' ');
-                offset = set_one_byte(s, offset, day_sign);
-                offset += pg_ltostr(&mut s[offset..], mday.abs());
+                if mday >= 0 {
+                    offset = set_one_byte(s, offset, b'+');
+                }
+                offset += pg_ltostr(&mut s[offset..], mday);
                 offset = set_one_byte(s, offset, b' ');
-                offset = set_one_byte(s, offset, sec_sign);
-                offset += pg_ltostr(&mut s[offset..], hour.abs());
+                if hour >= 0 {
+                    offset = set_one_byte(s, offset, if sec_negative { b'-' } else { b'+' });
+                }
+                offset += pg_ltostr(&mut s[offset..], hour);
                 offset = set_one_byte(s, offset, b':');
 
                 offset += pg_ltostr_zeropad(&mut s[offset..], min.abs(), 2);
@@ -802,13 +804,17 @@ fn format_interval(
                 if !is_zero {
                     offset = set_one_byte(s, offset, b' ');
                 }
-                if minus {
-                    offset = set_one_byte(s, offset, b'-');
-                } else if is_before {
-                    offset = set_one_byte(s, offset, b'+');
+                if hour < 0 {
+                    // three places, with the sign.
+                    offset += pg_ltostr_zeropad(&mut s[offset..], hour, 3);
+                } else {
+                    if minus {
+                        offset = set_one_byte(s, offset, b'-');
+                    } else if is_before {
+                        offset = set_one_byte(s, offset, b'+');
+                    }
+                    offset += pg_ltostr_zeropad(&mut s[offset..], hour, 2);
                 }
-
-                offset += pg_ltostr_zeropad(&mut s[offset..], hour.abs(), 2);
                 offset = set_one_byte(s, offset, b':');
                 offset += pg_ltostr_zeropad(&mut s[offset..], min.abs(), 2);
                 offset = set_one_byte(s, offset, b':');
@@ -827,26 +833,30 @@ fn format_interval(
         // Compatible with postgresql < 8.4 when DateStyle != 'iso'.
         _ => {
             offset = set_one_byte(s, offset, b'@');
+            // the smallest integers can not be negated, so they can not be "ago".
+            let can_ago = mday != std::i32::MIN && hour != std::i32::MIN;
             offset += add_verbose_int_part(
                 &mut s[offset..],
                 year,
                 b"year",
                 &mut is_zero,
                 &mut is_before,
+                can_ago,
             )?;
             offset +=
-                add_verbose_int_part(&mut s[offset..], mon, b"mon", &mut is_zero, &mut is_before)?;
+                add_verbose_int_part(&mut s[offset..], mon, b"mon", &mut is_zero, &mut is_before, can_ago)?;
             offset +=
-                add_verbose_int_part(&mut s[offset..], mday, b"day", &mut is_zero, &mut is_before)?;
+                add_verbose_int_part(&mut s[offset..], mday, b"day", &mut is_zero, &mut is_before, can_ago)?;
             offset += add_verbose_int_part(
                 &mut s[offset..],
                 hour,
                 b"hour",
                 &mut is_zero,
                 &mut is_before,
+                can_ago,
             )?;
             offset +=
-                add_verbose_int_part(&mut s[offset..], min, b"min", &mut is_zero, &mut is_before)?;
+                add_verbose_int_part(&mut s[offset..], min, b"min", &mut is_zero, &mut is_before, can_ago)?;
             if sec != 0 || fsec != 0 {
                 offset = set_one_byte(s, offset, b' ');
                 if sec < 0 || (sec == 0 && fsec < 0) {
@@ -942,6 +952,7 @@ fn add_verbose_int_part(
     units: &[u8],
     is_zero: &mut bool,
     is_before: &mut bool,
+    can_ago: bool,
 ) -> Result<usize, DateTimeError> {
     if value == 0 {
         return Ok(0);
@@ -951,13 +962,10 @@ fn add_verbose_int_part(
     offset = set_one_byte(s, offset, b' ');
     // first nonzero value sets is_before.
     if *is_zero {
-        *is_before = value < 0;
-        offset += pg_ltostr(&mut s[offset..], value.abs());
-    } else if *is_before {
-        offset += pg_ltostr(&mut s[offset..], -value);
-    } else {
-        offset += pg_ltostr(&mut s[offset..], value);
-    };
+        *is_before = value < 0 && can_ago;
+    }
+    let value = if *is_before { -value } else { value };
+    offset += pg_ltostr(&mut s[offset..], value);
     offset = set_one_byte(s, offset, b' ');
     offset = copy_slice(s, offset, units);
     if value != 1 {
-- 
2.43.0


From 582985d6e71eff6d842e9179aa08c578c8c37721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:41 +0000
Subject: [PATCH 16/39] fix: moving a timestamp to days before the Julian
 period overflows

---
 src/timestamp.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/timestamp.rs b/src/timestamp.rs
index 888d2e5..108a03a 100644
--- a/src/timestamp.rs
+++ b/src/timestamp.rs
@@ -292,7 +292,11 @@ impl Timestamp {
                 let mut fsec = 0;
                 timestamp2time(timestamp, &None, &mut tm, &mut fsec, &mut None, &None)?;
                 // Add days by converting to and from Julian
-                let julian = date2julian(tm.year, tm.mon, tm.mday).wrapping_add(span.day());
+                // julian2date expects a non-negative day.
+                let julian = date2julian(tm.year, tm.mon, tm.mday)
+                    .checked_add(span.day())
+                    .filter(|julian| *julian >= 0)
+                    .ok_or_else(DateTimeError::overflow)?;
                 let (y, m, d) = julian2date(julian);
                 tm.set_ymd(y, m, d);
                 timestamp = tm.to_timestamp(fsec, None)?;
-- 
2.43.0


From ffc0f274d053b3c5cab692ca181090f2cf0cfd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:43 +0000
Subject: [PATCH 17/39] fix: justify_interval loses days that only fit after
 moving to months

---
 src/interval.rs | 41 ++++++++++++++++++++---------------------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/src/interval.rs b/src/interval.rs
index e8ac344..8b8ba94 100644
--- a/src/interval.rs
+++ b/src/interval.rs
@@ -259,30 +259,29 @@ impl Interval {
     ///  all three fields are negative or all are positive.
     #[inline]
     pub fn justify_interval(self) -> Self {
-        let mut result = self;
-        let (time, whole_day) = time_modulo(result.time, USECS_PER_DAY);
-        result.time = time;
-        result.day = result.day.wrapping_add(whole_day as i32); // could overflow.
-        let whole_month = result.day / DAYS_PER_MONTH;
-        result.day = result.day.wrapping_sub(whole_month * DAYS_PER_MONTH);
-        result.month = result.month.wrapping_add(whole_month);
-
-        if result.month > 0 && (result.day < 0 || (result.day == 0 && result.time < 0)) {
-            result.day += DAYS_PER_MONTH;
-            result.month -= 1;
-        } else if result.month < 0 && (result.day > 0 || (result.day == 0 && result.time > 0)) {
-            result.day -= DAYS_PER_MONTH;
-            result.month += 1;
+        // 64-bit parts, the days and months may only fit after the adjustments.
+        let (mut time, whole_day) = time_modulo(self.time, USECS_PER_DAY);
+        let total_day = self.day as i64 + whole_day;
+        let whole_month = total_day / DAYS_PER_MONTH as i64;
+        let mut day = total_day - whole_month * DAYS_PER_MONTH as i64;
+        let mut month = self.month as i64 + whole_month;
+
+        if month > 0 && (day < 0 || (day == 0 && time < 0)) {
+            day += DAYS_PER_MONTH as i64;
+            month -= 1;
+        } else if month < 0 && (day > 0 || (day == 0 && time > 0)) {
+            day -= DAYS_PER_MONTH as i64;
+            month += 1;
         }
 
-        if result.day > 0 && result.time < 0 {
-            result.time += USECS_PER_DAY;
-            result.day -= 1;
-        } else if result.day < 0 && result.time > 0 {
-            result.time -= USECS_PER_DAY;
-            result.day += 1;
+        if day > 0 && time < 0 {
+            time += USECS_PER_DAY;
+            day -= 1;
+        } else if day < 0 && time > 0 {
+            time -= USECS_PER_DAY;
+            day += 1;
         }
-        result
+        Self::from_mdt(month as i32, day as i32, time) // month could overflow.
     }
 
     /// `Interval` multiply float64.
-- 
2.43.0


From 1f14ca1fac2923691134fd7c8c767b78f78c52a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:03 +0000
Subject: [PATCH 18/39] fix: scaling an interval returns garbage or panics when
 the result does not fit

---
 src/interval.rs | 51 +++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 41 insertions(+), 10 deletions(-)

diff --git a/src/interval.rs b/src/interval.rs
index 8b8ba94..76decef 100644
--- a/src/interval.rs
+++ b/src/interval.rs
@@ -333,15 +333,24 @@ impl Interval {
         // cascade from months and days.  It might still be >24 if the combination
         // of cascade and the seconds factor operation itself.
         if sec_remainder.abs() >= SECS_PER_DAY as f64 {
-            result.day += (sec_remainder / SECS_PER_DAY as f64) as i32;
+            result.day = result
+                .day
+                .checked_add((sec_remainder / SECS_PER_DAY as f64) as i32)
+                .ok_or_else(DateTimeError::overflow)?;
             sec_remainder -= (((sec_remainder / SECS_PER_DAY as f64) as i32) * SECS_PER_DAY) as f64;
         }
 
         // cascade units down
-        result.day += month_remainder_days as i32;
+        result.day = result
+            .day
+            .checked_add(month_remainder_days as i32)
+            .ok_or_else(DateTimeError::overflow)?;
         let result_time =
             (self.time as f64 * factor + sec_remainder * USECS_PER_SEC as f64).round();
-        if result_time > std::i64::MAX as f64 || result_time < std::i64::MIN as f64 {
+        if result_time.is_nan()
+            || result_time >= std::i64::MAX as f64
+            || result_time < std::i64::MIN as f64
+        {
             return Err(DateTimeError::overflow());
         }
 
@@ -361,10 +370,17 @@ impl Interval {
                 self
             )));
         }
-        let month = (self.month as f64 / factor) as i32;
-        let day = (self.day as f64 / factor) as i32;
+        let month = self.month as f64 / factor;
+        if month.is_nan() || month > std::i32::MAX as f64 || month < std::i32::MIN as f64 {
+            return Err(DateTimeError::overflow());
+        }
 
-        let mut result = Interval::from_mdt(month, day, 0);
+        let day = self.day as f64 / factor;
+        if day.is_nan() || day > std::i32::MAX as f64 || day < std::i32::MIN as f64 {
+            return Err(DateTimeError::overflow());
+        }
+
+        let mut result = Interval::from_mdt(month as i32, day as i32, 0);
         // Fractional months full days into days.  See comment in interval_mul().
 
         let mut month_remainder_days =
@@ -376,14 +392,29 @@ impl Interval {
             * SECS_PER_DAY as f64;
         sec_remainder = timestamp_round(sec_remainder);
         if sec_remainder.abs() >= SECS_PER_DAY as f64 {
-            result.day += (sec_remainder / SECS_PER_DAY as f64) as i32;
+            result.day = result
+                .day
+                .checked_add((sec_remainder / SECS_PER_DAY as f64) as i32)
+                .ok_or_else(DateTimeError::overflow)?;
             sec_remainder -= (((sec_remainder / SECS_PER_DAY as f64) as i32) * SECS_PER_DAY) as f64;
         }
 
         // cascade units down
-        result.day += month_remainder_days as i32;
-        result.time =
-            (self.time as f64 / factor + sec_remainder * USECS_PER_SEC as f64).round() as i64;
+        result.day = result
+            .day
+            .checked_add(month_remainder_days as i32)
+            .ok_or_else(DateTimeError::overflow)?;
+        let result_time =
+            (self.time as f64 / factor + sec_remainder * USECS_PER_SEC as f64).round();
+        if result_time.is_nan()
+            || result_time >= std::i64::MAX as f64
+            || result_time < std::i64::MIN as f64
+        {
+            return Err(DateTimeError::overflow());
+        }
+
+        result.time = result_time as i64;
+
         Ok(result)
     }
 
-- 
2.43.0


From fb9ed5c5690382d360cd8822327985e92cebf507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:38 +0000
Subject: [PATCH 19/39] fix: padding negative numbers with zeros overflows

---
 src/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common.rs b/src/common.rs
index 3d1d22d..990bd02 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -752,7 +752,7 @@ pub fn pg_ltostr_zeropad(s: &mut [u8], value: i32, min_width: usize) -> usize {
             let old_val = num;
             num /= 10;
             let remainder = old_val - num * 10;
-            s[start + min_width] = b'0' - remainder as u8;
+            s[start + min_width] = (b'0' as i8 - remainder as i8) as u8;
         }
     } else {
         // Build the number starting at the last digit */
-- 
2.43.0


From c51332441fad83bec2c903468264d45ea217b957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:32 +0000
Subject: [PATCH 20/39] fix: negative ISO 8601 durations do not read back

---
 src/parse.rs | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 51d46c8..46c1665 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2902,7 +2902,7 @@ fn parse_iso8601_number<'a, 'b, 'c>(
             ));
         }
         Some(c) => {
-            if !(c.is_ascii_digit() || c == &b'c' || c == &b'.') {
+            if !(c.is_ascii_digit() || c == &b'-' || c == &b'.') {
                 return Err(DateTimeError::invalid(format!(
                     "str: {:?} is invalid for iso number",
                     s
@@ -2920,15 +2920,27 @@ fn parse_iso8601_number<'a, 'b, 'c>(
         return Err(DateTimeError::overflow());
     }
     // be very sure we truncate towards zero (cf dtrunc()).
-    if val >= 0.0 {
-        *ipart = val.floor() as i32;
-    } else {
-        *ipart = -val.floor() as i32;
-    }
+    *ipart = val.trunc() as i32;
     *fpart = val - *ipart as f64;
     Ok(end)
 }
 
+/// As above, but for the alternative format, which has no signs.
+#[inline]
+fn parse_iso8601_unsigned_number<'a, 'b, 'c>(
+    s: &'a [u8],
+    ipart: &'b mut i32,
+    fpart: &'c mut f64,
+) -> Result<&'a [u8], DateTimeError> {
+    if s.first() == Some(&b'-') {
+        return Err(DateTimeError::invalid(format!(
+            "str: {:?} is invalid for unsigned iso number",
+            s
+        )));
+    }
+    parse_iso8601_number(s, ipart, fpart)
+}
+
 /// Determine number of integral digits in a valid ISO 8601 number field
 /// (we should ignore sign and any fraction part)
 #[inline]
@@ -2974,7 +2986,7 @@ fn decode_date_part_left<'a, 'b, 'c, 'd>(
         return Ok((false, s));
     }
 
-    s = parse_iso8601_number(s, val, fval)?;
+    s = parse_iso8601_unsigned_number(s, val, fval)?;
     tm.mon += *val;
     adjust_fract_days(*fval, tm, fsec, DAYS_PER_MONTH)?;
     match s.first() {
@@ -2995,7 +3007,7 @@ fn decode_date_part_left<'a, 'b, 'c, 'd>(
     }
 
     s = &s[1..];
-    s = parse_iso8601_number(s, val, fval)?;
+    s = parse_iso8601_unsigned_number(s, val, fval)?;
     tm.mday += *val;
     adjust_fract_seconds(*fval, tm, fsec, SECS_PER_DAY)?;
     match s.first() {
@@ -3035,7 +3047,7 @@ fn decode_time_part_left(
         return Ok(());
     }
 
-    let mut s = parse_iso8601_number(s, val, fval)?;
+    let mut s = parse_iso8601_unsigned_number(s, val, fval)?;
     tm.min += *val;
     adjust_fract_seconds(*fval, tm, fsec, SECS_PER_MINUTE)?;
     match s.first() {
@@ -3050,7 +3062,7 @@ fn decode_time_part_left(
         }
     }
     s = &s[1..];
-    s = parse_iso8601_number(s, val, fval)?;
+    s = parse_iso8601_unsigned_number(s, val, fval)?;
     tm.sec += *val;
     adjust_fract_seconds(*fval, tm, fsec, 1)?;
     match s.first() {
@@ -3120,6 +3132,12 @@ pub fn decode_iso8601_interval(
         } else {
             b'\0'
         };
+        if field_start[0] == b'-' && matches!(unit, b'T' | b'\0' | b'-' | b':') {
+            return Err(DateTimeError::invalid(format!(
+                "str: {:?} is invalid for unsigned iso number",
+                field_start
+            )));
+        }
         if datepart {
             match unit        // before T: Y M W D.
             {
-- 
2.43.0


From 02229a5b90beb745d2ea381211dcdaa81625378c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:19 +0000
Subject: [PATCH 21/39] fix: reading intervals whose fields do not fit
 overflows

---
 src/parse.rs | 109 +++++++++++++++++++++++++++++++--------------------
 1 file changed, 66 insertions(+), 43 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 46c1665..44c327d 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2463,6 +2463,24 @@ fn adjust_fract_days(
     Ok(())
 }
 
+/// Add to a field of a broken-down interval, with overflow checking.
+#[inline]
+fn add_field(field: &mut i32, value: i32) -> Result<(), DateTimeError> {
+    *field = field
+        .checked_add(value)
+        .ok_or_else(DateTimeError::overflow)?;
+    Ok(())
+}
+
+/// As above, but the value is scaled first.
+#[inline]
+fn add_scaled_field(field: &mut i32, value: i32, scale: i32) -> Result<(), DateTimeError> {
+    let value = value
+        .checked_mul(scale)
+        .ok_or_else(DateTimeError::overflow)?;
+    add_field(field, value)
+}
+
 fn decode_interval_number_field(
     field: &[u8],
     tm: &mut PgTime,
@@ -2553,14 +2571,14 @@ fn decode_interval_number_field(
         }
         TokenField::Millisec => {
             // avoid overflowing the fsec field.
-            tm.sec += val / 1000;
+            add_field(&mut tm.sec, val / 1000)?;
             val -= (val / 1000) * 1000;
             *f_sec += ((val as f64 + *f_val) * 1000_f64).round() as i64;
             *t_mask = TokenType::MILLISECOND.mask();
         }
 
         TokenField::Second => {
-            tm.sec += val;
+            add_field(&mut tm.sec, val)?;
             *f_sec += (*f_val * 1_000_000_f64).round() as i64;
 
             // If any subseconds were specified, consider this
@@ -2573,64 +2591,64 @@ fn decode_interval_number_field(
         }
 
         TokenField::Minute => {
-            tm.min += val;
+            add_field(&mut tm.min, val)?;
             adjust_fract_seconds(*f_val, tm, f_sec, SECS_PER_MINUTE)?;
             *t_mask = TokenType::MINUTE.mask();
         }
 
         TokenField::Hour => {
-            tm.hour += val;
+            add_field(&mut tm.hour, val)?;
             adjust_fract_seconds(*f_val, tm, f_sec, SECS_PER_HOUR)?;
             *t_mask = TokenType::HOUR.mask();
             *ty = TokenField::Day.value(); /* set for next field */
         }
 
         TokenField::Day => {
-            tm.mday += val;
+            add_field(&mut tm.mday, val)?;
             adjust_fract_seconds(*f_val, tm, f_sec, SECS_PER_DAY)?;
             *t_mask = TokenType::DAY.mask();
         }
 
         TokenField::Week => {
-            tm.mday += val * 7;
+            add_scaled_field(&mut tm.mday, val, 7)?;
             adjust_fract_days(*f_val, tm, f_sec, 7)?;
             *t_mask = TokenType::WEEK.mask();
         }
 
         TokenField::Month => {
-            tm.mon += val;
+            add_field(&mut tm.mon, val)?;
             adjust_fract_days(*f_val, tm, f_sec, DAYS_PER_MONTH)?;
             *t_mask = TokenType::MONTH.mask();
         }
 
         TokenField::Year => {
-            tm.year += val;
+            add_field(&mut tm.year, val)?;
             if *f_val != 0.0 {
-                tm.mon += (*f_val * MONTHS_PER_YEAR as f64) as i32;
+                add_field(&mut tm.mon, (*f_val * MONTHS_PER_YEAR as f64) as i32)?;
             }
             *t_mask = TokenType::YEAR.mask();
         }
 
         TokenField::Decade => {
-            tm.year += val * 10;
+            add_scaled_field(&mut tm.year, val, 10)?;
             if *f_val != 0.0 {
-                tm.mon += (*f_val * MONTHS_PER_YEAR as f64 * 10_f64) as i32;
+                add_field(&mut tm.mon, (*f_val * MONTHS_PER_YEAR as f64 * 10_f64) as i32)?;
             }
             *t_mask = TokenType::DECADE.mask();
         }
 
         TokenField::Century => {
-            tm.year += val * 100;
+            add_scaled_field(&mut tm.year, val, 100)?;
             if *f_val != 0.0 {
-                tm.mon += (*f_val * MONTHS_PER_YEAR as f64 * 100_f64) as i32;
+                add_field(&mut tm.mon, (*f_val * MONTHS_PER_YEAR as f64 * 100_f64) as i32)?;
             }
             *t_mask = TokenType::CENTURY.mask();
         }
 
         TokenField::Millennium => {
-            tm.year += val * 1000;
+            add_scaled_field(&mut tm.year, val, 1000)?;
             if *f_val != 0.0 {
-                tm.mon += (*f_val * MONTHS_PER_YEAR as f64 * 1000_f64) as i32;
+                add_field(&mut tm.mon, (*f_val * MONTHS_PER_YEAR as f64 * 1000_f64) as i32)?;
             }
             *t_mask = TokenType::MILLENNIUM.mask();
         }
@@ -2817,7 +2835,7 @@ pub fn decode_interval(
     if *f_sec != 0 {
         let sec = *f_sec / USECS_PER_SEC;
         *f_sec -= sec * USECS_PER_SEC;
-        tm.sec += sec as i32;
+        add_field(&mut tm.sec, sec as i32)?;
     }
 
     // The SQL standard defines the interval literal
@@ -2874,12 +2892,17 @@ pub fn decode_interval(
     // finally, AGO negates everything.
     if is_before {
         *f_sec = -(*f_sec);
-        tm.sec = -tm.sec;
-        tm.min = -tm.min;
-        tm.hour = -tm.hour;
-        tm.mday = -tm.mday;
-        tm.mon = -tm.mon;
-        tm.year = -tm.year;
+        let fields = [
+            &mut tm.sec,
+            &mut tm.min,
+            &mut tm.hour,
+            &mut tm.mday,
+            &mut tm.mon,
+            &mut tm.year,
+        ];
+        for field in fields {
+            *field = field.checked_neg().ok_or_else(DateTimeError::overflow)?;
+        }
     }
 
     Ok(())
@@ -2975,8 +2998,8 @@ fn decode_date_part_left<'a, 'b, 'c, 'd>(
 
     let mut s = s;
 
-    tm.year += *val;
-    tm.mon += (*fval * MONTHS_PER_YEAR as f64) as i32;
+    add_field(&mut tm.year, *val)?;
+    add_field(&mut tm.mon, (*fval * MONTHS_PER_YEAR as f64) as i32)?;
     if unit == b'\0' {
         return Ok((true, s));
     }
@@ -2987,7 +3010,7 @@ fn decode_date_part_left<'a, 'b, 'c, 'd>(
     }
 
     s = parse_iso8601_unsigned_number(s, val, fval)?;
-    tm.mon += *val;
+    add_field(&mut tm.mon, *val)?;
     adjust_fract_days(*fval, tm, fsec, DAYS_PER_MONTH)?;
     match s.first() {
         None => return Ok((true, s)),
@@ -3008,7 +3031,7 @@ fn decode_date_part_left<'a, 'b, 'c, 'd>(
 
     s = &s[1..];
     s = parse_iso8601_unsigned_number(s, val, fval)?;
-    tm.mday += *val;
+    add_field(&mut tm.mday, *val)?;
     adjust_fract_seconds(*fval, tm, fsec, SECS_PER_DAY)?;
     match s.first() {
         None => Ok((true, s)),
@@ -3041,14 +3064,14 @@ fn decode_time_part_left(
         return Err(DateTimeError::invalid("have field is set".to_string()));
     }
 
-    tm.hour += *val;
+    add_field(&mut tm.hour, *val)?;
     adjust_fract_seconds(*fval, tm, fsec, SECS_PER_HOUR)?;
     if unit == b'\0' {
         return Ok(());
     }
 
     let mut s = parse_iso8601_unsigned_number(s, val, fval)?;
-    tm.min += *val;
+    add_field(&mut tm.min, *val)?;
     adjust_fract_seconds(*fval, tm, fsec, SECS_PER_MINUTE)?;
     match s.first() {
         None => return Ok(()),
@@ -3063,7 +3086,7 @@ fn decode_time_part_left(
     }
     s = &s[1..];
     s = parse_iso8601_unsigned_number(s, val, fval)?;
-    tm.sec += *val;
+    add_field(&mut tm.sec, *val)?;
     adjust_fract_seconds(*fval, tm, fsec, 1)?;
     match s.first() {
         None => Ok(()),
@@ -3142,19 +3165,19 @@ pub fn decode_iso8601_interval(
             match unit        // before T: Y M W D.
             {
                 b'Y' => {
-                    tm.year += val;
-                    tm.mon += (fval * MONTHS_PER_YEAR as f64) as i32;
+                    add_field(&mut tm.year, val)?;
+                    add_field(&mut tm.mon, (fval * MONTHS_PER_YEAR as f64) as i32)?;
                 }
                 b'M' => {
-                    tm.mon += val;
+                    add_field(&mut tm.mon, val)?;
                     adjust_fract_days(fval, tm, fsec, DAYS_PER_MONTH)?;
                 }
                 b'W' => {
-                    tm.mday += val * 7;
+                    add_scaled_field(&mut tm.mday, val, 7)?;
                     adjust_fract_days(fval, tm, fsec, 7)?;
                 }
                 b'D' => {
-                    tm.mday += val;
+                    add_field(&mut tm.mday, val)?;
                     adjust_fract_seconds(fval, tm, fsec, SECS_PER_DAY)?;
                 }
                 b'T' | b'\0' => {
@@ -3162,9 +3185,9 @@ pub fn decode_iso8601_interval(
                     let width = iso8601_integer_width(field_start);
                     if width == 8 && !havefield
                     {
-                        tm.year += val / 10000;
-                        tm.mon += (val / 100) % 100;
-                        tm.mday += val % 100;
+                        add_field(&mut tm.year, val / 10000)?;
+                        add_field(&mut tm.mon, (val / 100) % 100)?;
+                        add_field(&mut tm.mday, val % 100)?;
                         adjust_fract_seconds(fval, tm, fsec, SECS_PER_DAY)?;
                         if unit == b'\0' {
                             return Ok(());
@@ -3206,24 +3229,24 @@ pub fn decode_iso8601_interval(
             match unit        /* after T: H M S */
             {
                 b'H' => {
-                    tm.hour += val;
+                    add_field(&mut tm.hour, val)?;
                     adjust_fract_seconds(fval, tm, fsec, SECS_PER_HOUR)?;
                 }
                 b'M' => {
-                    tm.min += val;
+                    add_field(&mut tm.min, val)?;
                     adjust_fract_seconds(fval, tm, fsec, SECS_PER_MINUTE)?;
                 }
                 b'S' => {
-                    tm.sec += val;
+                    add_field(&mut tm.sec, val)?;
                     adjust_fract_seconds(fval, tm, fsec, 1)?;
                 }
                 b'\0' => { // ISO 8601 4.4.3.3 Alternative Format
                     let len = iso8601_integer_width(field_start);
                     if len == 6 && !havefield
                     {
-                        tm.hour += val / 10000;
-                        tm.min += (val / 100) % 100;
-                        tm.sec += val % 100;
+                        add_field(&mut tm.hour, val / 10000)?;
+                        add_field(&mut tm.min, (val / 100) % 100)?;
+                        add_field(&mut tm.sec, val % 100)?;
                         adjust_fract_seconds(fval, tm, fsec, 1)?;
                         return Ok(());
                     }
-- 
2.43.0


From 48fdfe5db4be1fb785d0e79642ba24d39b4d8dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:25 +0000
Subject: [PATCH 22/39] fix: dates like '25 November 1999' are rejected under
 YMD order

---
 src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 44c327d..5549b7a 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1604,7 +1604,7 @@ impl DecodeDateTimeCtx {
             else {
                 decode_number(
                     str,
-                    false,
+                    self.have_text_month,
                     self.f_mask,
                     &mut self.t_mask,
                     tm,
-- 
2.43.0


From 20a57196dd5eed8df0b29ef71214ad8d7335a97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:50 +0000
Subject: [PATCH 23/39] fix: punctuation swallows the sign of the number after
 it

---
 src/parse.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 5549b7a..dc8acfc 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -377,9 +377,8 @@ where
                     current_str = ret_str;
                     current_buf = ret_buf;
                 } else if char.is_ascii_punctuation() {
-                    let (_field_str, s) =
-                        eat_special_chars(current_str, |i| i.is_ascii_punctuation());
-                    current_str = s;
+                    // ignore other punctuation but use as delimiter.
+                    current_str = &current_str[1..];
                     continue;
                 } else {
                     return Err(DateTimeError::invalid(format!(
-- 
2.43.0


From 5411606202266e7a27b3645c5822b86067b568aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:52 +0000
Subject: [PATCH 24/39] fix: a trailing T after a date panics

---
 src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index dc8acfc..95bf320 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1763,7 +1763,7 @@ impl DecodeDateTimeCtx {
                     return Err(DateTimeError::invalid(format!(
                         "the {:?} field's type: {:?} is unexpected",
                         field_id,
-                        ftypes[field_id + 1]
+                        ftypes.get(field_id + 1)
                     )));
                 }
                 self.p_type = TokenField::try_from(val)?;
-- 
2.43.0


From 5c2f3e33e108bd0684dba92a1fa7c1a4f9d15170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:55 +0000
Subject: [PATCH 25/39] fix: reading long text runs over the work buffer and
 panics

---
 src/parse.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index 95bf320..3f3f357 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -321,6 +321,18 @@ where
         ));
     }
 
+    // The fields have to fit in the workspace.
+    let field_len = time_str
+        .iter()
+        .filter(|c| c.is_ascii_alphanumeric() || b"+-./:_".contains(c))
+        .count();
+    if field_len > worker_buf.len() {
+        return Err(DateTimeError::invalid(format!(
+            "date time string of {:?} characters is too long",
+            field_len
+        )));
+    }
+
     let mut current_str = time_str;
     let mut current_buf = worker_buf;
 
-- 
2.43.0


From 3b49a0493c328581531825fefd579414a202f2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:57 +0000
Subject: [PATCH 26/39] fix: a bare sign at the end leaves its field type
 uninitialised

---
 src/parse.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 3f3f357..5fb8624 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -271,7 +271,11 @@ fn parse_date_time_for_sign_begin<'a, 'b, 'c>(
                 )));
             }
         }
-        None => s,
+        None => {
+            return Err(DateTimeError::invalid(
+                "date time expect digit or alpha after sign, but it is the end".to_string(),
+            ));
+        }
     };
 
     let (filed, ret_buf) = current_buf.split_at_mut(buf_pos);
-- 
2.43.0


From ed8f4fc095db2b533742dffb80b52ec4008c0cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:59 +0000
Subject: [PATCH 27/39] fix: upper case letters after a delimiter are not
 recognised

---
 src/parse.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 5fb8624..ae4f23e 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -223,7 +223,8 @@ fn parse_date_time_for_alpha_begin<'a, 'b, 'c>(
                 || i == b':'
                 || i.is_ascii_alphanumeric()
         });
-        buf_pos = copy_slice(current_buf, buf_pos, field_str);
+        let lower_str = field_str.to_ascii_lowercase();
+        buf_pos = copy_slice(current_buf, buf_pos, lower_str.as_ref());
         s
     } else {
         s
-- 
2.43.0


From 5c8a76459a5dd3099314e7ebf74d332d9052c125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:01 +0000
Subject: [PATCH 28/39] fix: invalid numbers with a decimal point are ignored
 in dates

---
 src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index ae4f23e..b893ff2 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -713,7 +713,7 @@ fn decode_number(
     match s.first() {
         Some(&b'.') => {
             if str.len() - s.len() > 2 {
-                let _ = decode_number_field(str, f_mask | DTK_DATE_M, t_mask, tm, fsec, is2digits);
+                let _ = decode_number_field(str, f_mask | DTK_DATE_M, t_mask, tm, fsec, is2digits)?;
                 return Ok(());
             }
             *fsec = parse_fractional_second(s)?;
-- 
2.43.0


From 25d36ba16bdabb6db95894621ab2eb33b41352fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:03 +0000
Subject: [PATCH 29/39] fix: impossible times of day are accepted with a date
 or past 24:00

---
 src/parse.rs | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index b893ff2..a0ca607 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1807,6 +1807,27 @@ impl DecodeDateTimeCtx {
     }
 }
 
+/// Check the fields of a time of day, which is not later than 24:00:00.
+/// This should match the checks in make_timestamp_internal.
+fn validate_time(tm: &PgTime, f_sec: i64) -> Result<(), DateTimeError> {
+    if tm.hour < 0
+        || tm.hour > HOURS_PER_DAY
+        || tm.min < 0
+        || tm.min > MINS_PER_HOUR - 1
+        || tm.sec < 0
+        || tm.sec > SECS_PER_MINUTE
+        || f_sec < 0
+        || f_sec > USECS_PER_SEC
+    {
+        return Err(DateTimeError::overflow());
+    }
+    let secs = (tm.hour * MINS_PER_HOUR + tm.min) * SECS_PER_MINUTE + tm.sec;
+    if secs as i64 * USECS_PER_SEC + f_sec > USECS_PER_DAY {
+        return Err(DateTimeError::overflow());
+    }
+    Ok(())
+}
+
 pub fn decode_date_time(
     fields: &[&[u8]],
     f_types: &[TokenField],
@@ -1892,6 +1913,7 @@ pub fn decode_date_time(
     } else if ctx.mer == PM && tm.hour != HOURS_PER_DAY / 2 {
         tm.hour += HOURS_PER_DAY / 2;
     }
+    validate_time(tm, ctx.f_sec)?;
 
     /* do additional checking for full date specs... */
     if ctx.d_type == TokenField::Date && (ctx.f_mask & DTK_DATE_M) != DTK_DATE_M {
@@ -2412,19 +2434,7 @@ pub fn decode_time_only(
         tm.hour += HOURS_PER_DAY / 2;
     }
 
-    // This should match the checks in make_timestamp_internal
-    if tm.hour < 0
-        || tm.min < 0
-        || tm.min > MINS_PER_HOUR - 1
-        || tm.sec < 0
-        || tm.sec > SECS_PER_MINUTE
-        || tm.hour > HOURS_PER_DAY
-        || (tm.hour == HOURS_PER_DAY && (tm.min > 0 || tm.sec > 0 || ctx.f_sec > 0))
-        || ctx.f_sec < 0
-        || ctx.f_sec > USECS_PER_SEC
-    {
-        return Err(DateTimeError::overflow());
-    }
+    validate_time(tm, ctx.f_sec)?;
 
     // To do for time zone
     Ok(ctx.f_sec)
-- 
2.43.0


From 252f89fe6af404a6be30af05923d7da0d914b644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:05 +0000
Subject: [PATCH 30/39] fix: day of year in years out of range overflows

---
 src/common.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/common.rs b/src/common.rs
index 990bd02..1ac1271 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -320,7 +320,15 @@ impl PgTime {
 
         // now that we have correct year, decode DOY.
         if (f_mask & TokenType::DOY.mask()) != 0 {
-            let (y, m, d) = julian2date(date2julian(self.year, 1, 1) + self.yday - 1);
+            // Prevent overflow in Julian-day routines.
+            if !is_valid_julian(self.year, MONTHS_PER_YEAR, 31) {
+                return Err(DateTimeError::overflow());
+            }
+            let julian = date2julian(self.year, 1, 1) + self.yday - 1;
+            if julian < 0 {
+                return Err(DateTimeError::overflow());
+            }
+            let (y, m, d) = julian2date(julian);
             self.set_ymd(y, m, d);
         }
 
-- 
2.43.0


From a7b44e4181b71534f8748c0a78d37c38a7a80d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:07 +0000
Subject: [PATCH 31/39] fix: a time of day without a date is read as a date of
 the year zero

---
 src/parse.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index a0ca607..2225217 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1917,7 +1917,8 @@ pub fn decode_date_time(
 
     /* do additional checking for full date specs... */
     if ctx.d_type == TokenField::Date && (ctx.f_mask & DTK_DATE_M) != DTK_DATE_M {
-        if (ctx.f_mask & DTK_TIME_M) == DTK_TIME_M {
+        // "allballs" is a time with its time zone.
+        if (ctx.f_mask & DTK_TIME_M) == DTK_TIME_M && (ctx.f_mask & TokenType::TZ.mask()) != 0 {
             return Ok((1, ctx.d_type, ctx.f_sec));
         }
         return Err(DateTimeError::invalid(format!(
-- 
2.43.0


From dcd9ae8f50c17af74d54530a50279d32497526b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:31 +0000
Subject: [PATCH 32/39] fix: reading and printing work on uninitialised memory

---
 src/date.rs      | 18 ++++++------------
 src/interval.rs  | 18 ++++++------------
 src/time.rs      | 18 ++++++------------
 src/timestamp.rs | 18 ++++++------------
 4 files changed, 24 insertions(+), 48 deletions(-)

diff --git a/src/date.rs b/src/date.rs
index d948bcf..943dbfc 100644
--- a/src/date.rs
+++ b/src/date.rs
@@ -23,7 +23,6 @@ use crate::timestamp::{Timestamp, DATE_TIME_BEGIN_VAL, DATE_TIME_END_VAL};
 use crate::token::*;
 use crate::{DateOrder, DateStyle, DateTime, DateUnit, FieldType};
 use std::convert::TryFrom;
-use std::mem::MaybeUninit;
 
 // Range limits for dates and timestamps.
 //
@@ -197,13 +196,11 @@ impl Date {
     }
 
     /// Parses `Date` string.
-    #[allow(clippy::uninit_assumed_init)]
     pub fn try_from_str(s: &str, date_order: DateOrder) -> Result<Self, DateTimeError> {
         let s = s.as_bytes();
-        let mut fields: [&[u8]; MAX_DATE_FIELDS] = unsafe { MaybeUninit::uninit().assume_init() };
-        let mut work_buf: [u8; MAX_DATE_LEN] = unsafe { MaybeUninit::uninit().assume_init() };
-        let mut f_types: [TokenField; MAX_DATE_FIELDS] =
-            unsafe { MaybeUninit::uninit().assume_init() };
+        let mut fields: [&[u8]; MAX_DATE_FIELDS] = [&[]; MAX_DATE_FIELDS];
+        let mut work_buf = [0; MAX_DATE_LEN];
+        let mut f_types = [TokenField::Number; MAX_DATE_FIELDS];
 
         let field_num =
             parse_date_time(s, &mut work_buf, &mut fields, &mut f_types, MAX_DATE_FIELDS)?;
@@ -260,17 +257,14 @@ impl Date {
         if self.is_infinite() {
             format_special_date(self)
         } else {
-            let mut buf = Vec::with_capacity(128);
-            unsafe { buf.set_len(128) };
+            let mut buf = vec![0; 128];
             let mut tm: PgTime = PgTime::new();
 
             let (y, m, d) = julian2date(self.value() + POSTGRES_EPOCH_JDATE);
             tm.set_ymd(y, m, d);
             let len = format_date(&tm, buf.as_mut_slice(), date_style, date_order)?;
-            unsafe {
-                buf.set_len(len);
-                Ok(String::from_utf8_unchecked(buf))
-            }
+            buf.truncate(len);
+            unsafe { Ok(String::from_utf8_unchecked(buf)) }
         }
     }
 }
diff --git a/src/interval.rs b/src/interval.rs
index 76decef..da2902d 100644
--- a/src/interval.rs
+++ b/src/interval.rs
@@ -21,7 +21,6 @@ use crate::token::*;
 use crate::{DateTime, DateUnit, FieldType, IntervalStyle, Time};
 use std::cmp::Ordering;
 use std::hash::{Hash, Hasher};
-use std::mem::MaybeUninit;
 use std::ops::Add;
 
 pub const INTERVAL_MASK_Y: i32 = TokenType::YEAR.mask();
@@ -565,17 +564,15 @@ impl Interval {
     }
 
     /// Parses `Internal` from string.
-    #[allow(clippy::uninit_assumed_init)]
     pub fn try_from_str(
         s: &str,
         type_mod: i32,
         format_type: IntervalStyle,
     ) -> Result<Self, DateTimeError> {
         let s = s.as_bytes();
-        let mut fields: [&[u8]; MAX_DATE_FIELDS] = unsafe { MaybeUninit::uninit().assume_init() };
-        let mut work_buf: [u8; MAX_DATE_LEN] = unsafe { MaybeUninit::uninit().assume_init() };
-        let mut f_types: [TokenField; MAX_DATE_FIELDS] =
-            unsafe { MaybeUninit::uninit().assume_init() };
+        let mut fields: [&[u8]; MAX_DATE_FIELDS] = [&[]; MAX_DATE_FIELDS];
+        let mut work_buf = [0; MAX_DATE_LEN];
+        let mut f_types = [TokenField::Number; MAX_DATE_FIELDS];
         let mut d_type = TokenField::Number;
         let mut fsec = 0;
         let mut tm = PgTime::new();
@@ -622,17 +619,14 @@ impl Interval {
     #[inline]
     pub fn format(self, interval_format: IntervalStyle) -> Result<String, DateTimeError> {
         //interval_to_string(self, interval_format)
-        let mut buf = Vec::with_capacity(128);
-        unsafe { buf.set_len(128) };
+        let mut buf = vec![0; 128];
         let mut tm: PgTime = PgTime::new();
         let mut fsec = 0;
 
         self.to_pgtime(&mut tm, &mut fsec)?;
         let len = format_interval(buf.as_mut_slice(), &tm, fsec, interval_format)?;
-        unsafe {
-            buf.set_len(len);
-            Ok(String::from_utf8_unchecked(buf))
-        }
+        buf.truncate(len);
+        unsafe { Ok(String::from_utf8_unchecked(buf)) }
     }
 }
 
diff --git a/src/time.rs b/src/time.rs
index 8449b81..2425863 100644
--- a/src/time.rs
+++ b/src/time.rs
@@ -21,7 +21,6 @@ use crate::parse::{decode_time_only, parse_date_time, timestamp2time};
 use crate::token::*;
 use crate::{DateOrder, DateStyle, DateTime, DateUnit, FieldType, Timestamp};
 use std::convert::TryFrom;
-use std::mem::MaybeUninit;
 
 const TIME_SCALES: [i64; MAX_TIME_PRECISION as usize + 1] =
     [1_000_000, 100_000, 10_000, 1000, 100, 10, 1];
@@ -102,17 +101,15 @@ impl Time {
     }
 
     /// Parses `Time` string. type_mod should be 0 ~ 6, else will have no affect.
-    #[allow(clippy::uninit_assumed_init)]
     pub fn try_from_str(
         s: &str,
         type_mod: i32,
         date_order: DateOrder,
     ) -> Result<Time, DateTimeError> {
         let s = s.as_bytes();
-        let mut fields: [&[u8]; MAX_DATE_FIELDS] = unsafe { MaybeUninit::uninit().assume_init() };
-        let mut work_buf: [u8; MAX_DATE_LEN] = unsafe { MaybeUninit::uninit().assume_init() };
-        let mut f_types: [TokenField; MAX_DATE_FIELDS] =
-            unsafe { MaybeUninit::uninit().assume_init() };
+        let mut fields: [&[u8]; MAX_DATE_FIELDS] = [&[]; MAX_DATE_FIELDS];
+        let mut work_buf = [0; MAX_DATE_LEN];
+        let mut f_types = [TokenField::Number; MAX_DATE_FIELDS];
         let mut tm = PgTime::new();
 
         let field_num =
@@ -133,16 +130,13 @@ impl Time {
     /// Converts `Time` to string.
     #[inline]
     pub fn format(self, date_style: DateStyle) -> Result<String, DateTimeError> {
-        let mut buf = Vec::with_capacity(128);
-        unsafe { buf.set_len(128) };
+        let mut buf = vec![0; 128];
         let mut tm: PgTime = PgTime::new();
         let mut fsec = 0;
         self.to_pgtime(&mut tm, &mut fsec);
         let len = format_time(&tm, buf.as_mut_slice(), fsec, false, 0, date_style);
-        unsafe {
-            buf.set_len(len);
-            Ok(String::from_utf8_unchecked(buf))
-        }
+        buf.truncate(len);
+        unsafe { Ok(String::from_utf8_unchecked(buf)) }
     }
 
     /// `Time` Adds `Interval`.
diff --git a/src/timestamp.rs b/src/timestamp.rs
index 108a03a..dd83b76 100644
--- a/src/timestamp.rs
+++ b/src/timestamp.rs
@@ -23,7 +23,6 @@ use crate::time::Time;
 use crate::token::*;
 use crate::{Date, DateOrder, DateStyle, DateTime, DateUnit, FieldType};
 use std::convert::TryFrom;
-use std::mem::MaybeUninit;
 
 // Timestamp limits
 const MIN_TIMESTAMP: i64 = -211_813_488_000_000_000; // == (DATETIME_MIN_JULIAN - POSTGRES_EPOCH_JDATE) * USECS_PER_DAY
@@ -162,17 +161,15 @@ impl Timestamp {
     }
 
     /// Parses `Timestamp` string. type_mode should be -1, or 1~6, else will be error.
-    #[allow(clippy::uninit_assumed_init)]
     pub fn try_from_str(
         s: &str,
         type_mod: i32,
         date_order: DateOrder,
     ) -> Result<Timestamp, DateTimeError> {
         let s = s.as_bytes();
-        let mut fields: [&[u8]; MAX_DATE_FIELDS] = unsafe { MaybeUninit::uninit().assume_init() };
-        let mut work_buf: [u8; MAX_DATE_LEN] = unsafe { MaybeUninit::uninit().assume_init() };
-        let mut f_types: [TokenField; MAX_DATE_FIELDS] =
-            unsafe { MaybeUninit::uninit().assume_init() };
+        let mut fields: [&[u8]; MAX_DATE_FIELDS] = [&[]; MAX_DATE_FIELDS];
+        let mut work_buf = [0; MAX_DATE_LEN];
+        let mut f_types = [TokenField::Number; MAX_DATE_FIELDS];
 
         let nf = parse_date_time(s, &mut work_buf, &mut fields, &mut f_types, MAX_DATE_FIELDS)?;
         let mut tm = PgTime::new();
@@ -198,8 +195,7 @@ impl Timestamp {
         if self.is_infinite() {
             format_special_timestamp(self)
         } else {
-            let mut buf = Vec::with_capacity(128);
-            unsafe { buf.set_len(128) };
+            let mut buf = vec![0; 128];
             let mut tm: PgTime = PgTime::new();
             let mut fsec = 0;
 
@@ -212,10 +208,8 @@ impl Timestamp {
                 date_style,
                 buf.as_mut_slice(),
             )?;
-            unsafe {
-                buf.set_len(len);
-                Ok(String::from_utf8_unchecked(buf))
-            }
+            buf.truncate(len);
+            unsafe { Ok(String::from_utf8_unchecked(buf)) }
         }
     }
 
-- 
2.43.0


From 6cfa3892cc7af2a0792c51af5b7f6bc6199991c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:38 +0000
Subject: [PATCH 33/39] fix: text without a time of day is read as midnight

---
 src/parse.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index 2225217..8ddb0ac 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2437,6 +2437,13 @@ pub fn decode_time_only(
 
     validate_time(tm, ctx.f_sec)?;
 
+    if (ctx.f_mask & DTK_TIME_M) != DTK_TIME_M {
+        return Err(DateTimeError::invalid(format!(
+            "time's field mask: {:x} is invalid",
+            ctx.f_mask
+        )));
+    }
+
     // To do for time zone
     Ok(ctx.f_sec)
 }
-- 
2.43.0


From fff6f79136694693c928caaa6dcd5f812e1746a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:41 +0000
Subject: [PATCH 34/39] fix: times with field labels but no fraction are
 rejected

---
 src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 8ddb0ac..6226212 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2437,7 +2437,7 @@ pub fn decode_time_only(
 
     validate_time(tm, ctx.f_sec)?;
 
-    if (ctx.f_mask & DTK_TIME_M) != DTK_TIME_M {
+    if (ctx.f_mask & TokenType::HOUR.mask()) == 0 {
         return Err(DateTimeError::invalid(format!(
             "time's field mask: {:x} is invalid",
             ctx.f_mask
-- 
2.43.0


From 22babce210243db30fb11a8e088be284c609d84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:43 +0000
Subject: [PATCH 35/39] fix: the minutes of a time like 'h04m05s06' are ignored

---
 src/parse.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 6226212..bb473bf 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2101,10 +2101,8 @@ impl DecodeTimeOnlyCtx {
                     self.t_mask = TokenType::YEAR.mask();
                 }
                 TokenField::Month => {
-                    //already have a month and hour? then assume minutes.
-                    if (self.f_mask & TokenType::MONTH.mask()) != 0
-                        && (self.f_mask & TokenType::HOUR.mask()) != 0
-                    {
+                    // already have an hour? then assume minutes.
+                    if (self.f_mask & TokenType::HOUR.mask()) != 0 {
                         tm.min = val;
                         self.t_mask = TokenType::MINUTE.mask();
                     } else {
-- 
2.43.0


From c03238dd32133f97f1165b4f9ddfe96bc85cee3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:49 +0000
Subject: [PATCH 36/39] fix: a clock time in an interval drops the fractions of
 days after it

---
 src/parse.rs | 50 ++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 40 insertions(+), 10 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index bb473bf..1cf56b5 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2513,6 +2513,32 @@ fn add_scaled_field(field: &mut i32, value: i32, scale: i32) -> Result<(), DateT
     add_field(field, value)
 }
 
+/// Decodes hh:mm or hh:mm:ss of an interval, and adds it to what fractions of larger units gave.
+fn decode_interval_time_field(
+    field: &[u8],
+    negative: bool,
+    f_mask: i32,
+    range: i32,
+    tm: &mut PgTime,
+    f_sec: &mut i64,
+    t_mask: &mut i32,
+) -> Result<(), DateTimeError> {
+    let (sec, frac) = (tm.sec, *f_sec);
+    *f_sec = 0;
+    decode_time(field, f_mask, range, t_mask, tm, f_sec)?;
+
+    if negative {
+        // flip the sign on all fields.
+        tm.hour = -tm.hour;
+        tm.min = -tm.min;
+        tm.sec = -tm.sec;
+        *f_sec = -(*f_sec);
+    }
+
+    *f_sec += frac;
+    add_field(&mut tm.sec, sec)
+}
+
 fn decode_interval_number_field(
     field: &[u8],
     tm: &mut PgTime,
@@ -2768,7 +2794,9 @@ pub fn decode_interval(
         let field = fields[field_idx];
         match f_type {
             TokenField::Time => {
-                decode_time(field, f_mask, range, &mut t_mask, tm, f_sec)?;
+                decode_interval_time_field(
+                    field, false, f_mask, range, tm, f_sec, &mut t_mask,
+                )?;
                 ty = TokenField::Day.value();
             }
 
@@ -2783,15 +2811,17 @@ pub fn decode_interval(
                 let find = field.iter().find(|&&i| i == b':');
                 match find {
                     Some(_) => {
-                        decode_time(&field[1..], f_mask, range, &mut t_mask, tm, f_sec)?;
-
-                        if field[0] == b'-' {
-                            // flip the sign on all fields.
-                            tm.hour = -tm.hour;
-                            tm.min = -tm.min;
-                            tm.sec = -tm.sec;
-                            *f_sec = -(*f_sec);
-                        }
+                        let negative = field[0] == b'-';
+                        decode_interval_time_field(
+                            &field[1..],
+                            negative,
+                            f_mask,
+                            range,
+                            tm,
+                            f_sec,
+                            &mut t_mask,
+                        )?;
+
                         // Set the next type to be a day, if units are not
                         // specified. This handles the case of '1 +02:03' since we
                         // are reading right to left.
-- 
2.43.0


From 36cb8f7d2817a5f80185a3d9de1e52b79277e346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:44 +0000
Subject: [PATCH 37/39] fix: self-describing binary formats do not read dates
 and times back

---
 src/serde.rs | 41 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/src/serde.rs b/src/serde.rs
index 880a96d..b4718e3 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -18,6 +18,7 @@ use crate::{Date, DateOrder, DateStyle, Interval, IntervalStyle, Time, Timestamp
 use serde::de::{MapAccess, SeqAccess, Visitor};
 use serde::ser::SerializeStruct;
 use serde::{de, ser, Deserialize, Deserializer, Serialize, Serializer};
+use std::convert::TryFrom;
 use std::fmt;
 
 impl Serialize for Date {
@@ -61,6 +62,26 @@ impl<'de> Deserialize<'de> for Date {
                 Ok(Date::new(v))
             }
 
+            #[inline]
+            fn visit_i64<E>(self, v: i64) -> Result<Self::Value, E>
+            where
+                E: de::Error,
+            {
+                i32::try_from(v)
+                    .map(Date::new)
+                    .map_err(|_| de::Error::invalid_value(de::Unexpected::Signed(v), &self))
+            }
+
+            #[inline]
+            fn visit_u64<E>(self, v: u64) -> Result<Self::Value, E>
+            where
+                E: de::Error,
+            {
+                i32::try_from(v)
+                    .map(Date::new)
+                    .map_err(|_| de::Error::invalid_value(de::Unexpected::Unsigned(v), &self))
+            }
+
             #[inline]
             fn visit_str<E>(self, v: &str) -> Result<Self::Value, E>
             where
@@ -117,6 +138,16 @@ impl<'de> Deserialize<'de> for Time {
                 Ok(Time::from(v))
             }
 
+            #[inline]
+            fn visit_u64<E>(self, v: u64) -> Result<Self::Value, E>
+            where
+                E: de::Error,
+            {
+                i64::try_from(v)
+                    .map(Time::from)
+                    .map_err(|_| de::Error::invalid_value(de::Unexpected::Unsigned(v), &self))
+            }
+
             #[inline]
             fn visit_str<E>(self, v: &str) -> Result<Self::Value, E>
             where
@@ -175,6 +206,16 @@ impl<'de> Deserialize<'de> for Timestamp {
                 Ok(Timestamp::new(v))
             }
 
+            #[inline]
+            fn visit_u64<E>(self, v: u64) -> Result<Self::Value, E>
+            where
+                E: de::Error,
+            {
+                i64::try_from(v)
+                    .map(Timestamp::new)
+                    .map_err(|_| de::Error::invalid_value(de::Unexpected::Unsigned(v), &self))
+            }
+
             #[inline]
             fn visit_str<E>(self, v: &str) -> Result<Self::Value, E>
             where
-- 
2.43.0


From a8d87327529ac5c8fdce792404c5bd7e9f5a3b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:46 +0000
Subject: [PATCH 38/39] fix: a sign or decimal point without digits was read as
 the number zero in intervals

---
 src/parse.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 1cf56b5..8de8005 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -419,8 +419,14 @@ fn str2i32(s: &[u8]) -> Result<(i32, &[u8]), DateTimeError> {
         return Ok((0, s));
     }
 
-    let (sign, s) = extract_sign(s);
-    let (integral, s) = eat_digits(s);
+    let (sign, left) = extract_sign(s);
+    let (integral, left) = eat_digits(left);
+
+    // a sign alone is not a number.
+    if integral.is_empty() {
+        return Ok((0, s));
+    }
+    let s = left;
 
     if integral.len() > 10 {
         return Err(DateTimeError::overflow());
@@ -2997,7 +3003,8 @@ fn parse_iso8601_number<'a, 'b, 'c>(
     }
 
     let (val, end) = str2d(s)?;
-    if end.len() == s.len() {
+    // a sign or a decimal point alone is not a number.
+    if !s[..s.len() - end.len()].iter().any(|c| c.is_ascii_digit()) {
         return Err(DateTimeError::invalid(format!("str: {:?} is not digit", s)));
     }
     // watch out for overflow */
-- 
2.43.0


From adae57dd5f1ebe791fd8c580ed4950303aa7d231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:59 +0000
Subject: [PATCH 39/39] fix: values made from raw numbers out of range overflow
 when printed, converted or subtracted

---
 src/date.rs      |  7 ++++++-
 src/time.rs      | 14 ++++++++++----
 src/timestamp.rs |  5 +++++
 3 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/date.rs b/src/date.rs
index 943dbfc..83efbcb 100644
--- a/src/date.rs
+++ b/src/date.rs
@@ -160,7 +160,9 @@ impl Date {
                 self, date
             )))
         } else {
-            Ok(self.value() - date.value())
+            self.value()
+                .checked_sub(date.value())
+                .ok_or_else(DateTimeError::overflow)
         }
     }
 
@@ -256,6 +258,9 @@ impl Date {
     ) -> Result<String, DateTimeError> {
         if self.is_infinite() {
             format_special_date(self)
+        } else if !self.is_valid() {
+            // a value made from a raw number may be out of range.
+            Err(DateTimeError::overflow())
         } else {
             let mut buf = vec![0; 128];
             let mut tm: PgTime = PgTime::new();
diff --git a/src/time.rs b/src/time.rs
index 2425863..6dba9e6 100644
--- a/src/time.rs
+++ b/src/time.rs
@@ -133,7 +133,7 @@ impl Time {
         let mut buf = vec![0; 128];
         let mut tm: PgTime = PgTime::new();
         let mut fsec = 0;
-        self.to_pgtime(&mut tm, &mut fsec);
+        self.to_pgtime(&mut tm, &mut fsec)?;
         let len = format_time(&tm, buf.as_mut_slice(), fsec, false, 0, date_style);
         buf.truncate(len);
         unsafe { Ok(String::from_utf8_unchecked(buf)) }
@@ -172,15 +172,21 @@ impl Time {
 
     /// Converts `Time` to `PgTime`
     #[inline]
-    pub(crate) fn to_pgtime(self, tm: &mut PgTime, fsec: &mut i64) {
+    pub(crate) fn to_pgtime(self, tm: &mut PgTime, fsec: &mut i64) -> Result<(), DateTimeError> {
         let mut time = self.value();
-        tm.hour = (time / USECS_PER_HOUR) as i32;
+        // a value made from a raw number may be out of range.
+        let hour = time / USECS_PER_HOUR;
+        if hour < std::i32::MIN as i64 || hour > std::i32::MAX as i64 {
+            return Err(DateTimeError::overflow());
+        }
+        tm.hour = hour as i32;
         time -= tm.hour as i64 * USECS_PER_HOUR;
         tm.min = (time / USECS_PER_MINUTE) as i32;
         time -= tm.min as i64 * USECS_PER_MINUTE;
         tm.sec = (time / USECS_PER_SEC) as i32;
         time -= tm.sec as i64 * USECS_PER_SEC;
         *fsec = time;
+        Ok(())
     }
 }
 
@@ -271,7 +277,7 @@ impl DateTime for Time {
             FieldType::Unit => {
                 let mut tm = PgTime::new();
                 let mut fsec = 0;
-                self.to_pgtime(&mut tm, &mut fsec);
+                self.to_pgtime(&mut tm, &mut fsec)?;
                 match unit {
                     DateUnit::MicroSec => Ok(tm.sec as f64 * 1_000_000.0 + fsec as f64),
                     DateUnit::MilliSec => Ok(tm.sec as f64 * 1000.0 + fsec as f64 / 1000.0),
diff --git a/src/timestamp.rs b/src/timestamp.rs
index dd83b76..5124f43 100644
--- a/src/timestamp.rs
+++ b/src/timestamp.rs
@@ -749,6 +749,11 @@ impl TryFrom<Date> for Timestamp {
                 return Err(DateTimeError::overflow());
             }
 
+            // A date made from a raw number may also be before the common minimum.
+            if value.value() < -POSTGRES_EPOCH_JDATE {
+                return Err(DateTimeError::overflow());
+            }
+
             // date is days since 2000, timestamp is microseconds since same.
             let result = (value.value() as i64) * USECS_PER_DAY;
             Ok(Timestamp::new(result))
-- 
2.43.0

