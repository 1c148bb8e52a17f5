From 47fa9e9654385b48bd80dc564a1eb56fcc495c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:05 +0000
Subject: [PATCH 01/94] fix: Argentina calendar misses New Year's Day

---
 crates/RustQuant_time/src/countries/argentina.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/RustQuant_time/src/countries/argentina.rs b/crates/RustQuant_time/src/countries/argentina.rs
index 5f15fe9..15f57aa 100644
--- a/crates/RustQuant_time/src/countries/argentina.rs
+++ b/crates/RustQuant_time/src/countries/argentina.rs
@@ -19,7 +19,9 @@ pub(crate) fn is_holiday_impl_argentina(date: Date) -> bool {
 
     if
     // New Year's Day
-    is_christmas_day(date)
+    is_new_years_day(date)
+            // Christmas Day
+            || is_christmas_day(date)
             // Holy Thursday
             || (yd == em-4)
             // Good Friday
-- 
2.43.0


From 135cdbbbcba088f02085915c310ffc6a8ae9c3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:05 +0000
Subject: [PATCH 02/94] fix: France calendar pins Ascension and Pentecost to
 the dates of 2018

---
 crates/RustQuant_time/src/countries/france.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/RustQuant_time/src/countries/france.rs b/crates/RustQuant_time/src/countries/france.rs
index 7174890..238e1d4 100644
--- a/crates/RustQuant_time/src/countries/france.rs
+++ b/crates/RustQuant_time/src/countries/france.rs
@@ -27,9 +27,9 @@ pub(crate) fn is_holiday_impl_france(date: Date) -> bool {
             // Victoire 1945
             || (d == 8 && m == Month::May)
             // Ascension
-            || (d == 10 && m == Month::May)
-            // Pentecote
-            || (d == 21 && m == Month::May)
+            || (yd == em + 38)
+            // Lundi de Pentecote
+            || (yd == em + 49)
             // Fete nationale
             || (d == 14 && m == Month::July)
             // Assomption
-- 
2.43.0


From 21a5f06dde422a2f6eb4b47c84a31e36214b62a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:05 +0000
Subject: [PATCH 03/94] fix: Singapore calendar treats the 25th of every month
 as Christmas

---
 crates/RustQuant_time/src/countries/singapore.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_time/src/countries/singapore.rs b/crates/RustQuant_time/src/countries/singapore.rs
index dceb55d..ea7c9df 100644
--- a/crates/RustQuant_time/src/countries/singapore.rs
+++ b/crates/RustQuant_time/src/countries/singapore.rs
@@ -23,7 +23,7 @@ pub(crate) fn is_holiday_impl_singapore(date: Date) -> bool {
                 // National Day
                 || ((d == 9 || ((d == 10) && wd == Weekday::Monday)) && m == Month::August)
                 // Christmas Day
-                || (d == 25 || ((d == 26) && wd == Weekday::Monday) && m == Month::December)
+                || ((d == 25 || ((d == 26) && wd == Weekday::Monday)) && m == Month::December)
                 // Chinese New Year
                 || is_chinese_new_year(y, m, d)
                 // Hari Raya Haji
-- 
2.43.0


From 3574081058582de049f10255df8274803895d9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:05 +0000
Subject: [PATCH 04/94] fix: Singapore calendar misses Chinese New Year on 1
 February 2014

---
 crates/RustQuant_time/src/countries/singapore.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/RustQuant_time/src/countries/singapore.rs b/crates/RustQuant_time/src/countries/singapore.rs
index ea7c9df..613865b 100644
--- a/crates/RustQuant_time/src/countries/singapore.rs
+++ b/crates/RustQuant_time/src/countries/singapore.rs
@@ -57,7 +57,8 @@ fn is_chinese_new_year(year: i32, month: Month, day: u8) -> bool {
             | (2011, 3..=4, February)
             | (2012, 23..=24, January)
             | (2013, 10..=12, February)
-            | (2014, 31 | 1, January)
+            | (2014, 31, January)
+            | (2014, 1, February)
             | (2015, 19..=20, February)
             | (2016, 8..=9, February)
             | (2017, 28..=29, January)
-- 
2.43.0


From d69f2b693163fcccf9f81799bf785c234c22d4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:05 +0000
Subject: [PATCH 05/94] fix: Singapore calendar lists Vesak Day 2005 in October

---
 crates/RustQuant_time/src/countries/singapore.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_time/src/countries/singapore.rs b/crates/RustQuant_time/src/countries/singapore.rs
index 613865b..e57674e 100644
--- a/crates/RustQuant_time/src/countries/singapore.rs
+++ b/crates/RustQuant_time/src/countries/singapore.rs
@@ -139,7 +139,7 @@ fn is_vesak_day(year: i32, month: Month, day: u8) -> bool {
     matches!(
         (year, day, month),
         (2004, 2, June)
-            | (2005, 22..=23, October)
+            | (2005, 22..=23, May)
             | (2006, 12, May)
             | (2007, 31, May)
             | (2008, 19, May)
-- 
2.43.0


From e36af4d699680e3b55a2514cc9ed3f2ff15a53bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:05 +0000
Subject: [PATCH 06/94] fix: Hong Kong calendar misses Lunar New Year on 1-3
 February 2014

---
 crates/RustQuant_time/src/countries/hong_kong.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/RustQuant_time/src/countries/hong_kong.rs b/crates/RustQuant_time/src/countries/hong_kong.rs
index d952c00..bdabbc9 100644
--- a/crates/RustQuant_time/src/countries/hong_kong.rs
+++ b/crates/RustQuant_time/src/countries/hong_kong.rs
@@ -67,7 +67,8 @@ fn is_lunar_new_year(year: i32, month: Month, day: u8) -> bool {
             | (2011, 2..=4, February)
             | (2012, 23..=25, January)
             | (2013, 10..=12, February)
-            | (2014, 31 | 1 | 2, January)
+            | (2014, 31, January)
+            | (2014, 1..=3, February)
             | (2015, 19..=21, February)
             | (2016, 8..=10, February)
             | (2017, 28..=30, January)
-- 
2.43.0


From 1b5854d1fd829f6081d213b9257a573bad2fe129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:05 +0000
Subject: [PATCH 07/94] fix: Israel calendar misplaces Purim and Passover dates
 into Adar in Hebrew leap years

---
 crates/RustQuant_time/src/countries/israel.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/RustQuant_time/src/countries/israel.rs b/crates/RustQuant_time/src/countries/israel.rs
index 1ce3eae..9599974 100644
--- a/crates/RustQuant_time/src/countries/israel.rs
+++ b/crates/RustQuant_time/src/countries/israel.rs
@@ -48,8 +48,13 @@ pub(crate) fn is_holiday_impl_israel(date: Date) -> bool {
     let mut hebrew_month = hebrew_date.month().ordinal as u8;
     let hebrew_day = hebrew_date.day_of_month().0 as u8;
 
-    if hebrew_date.is_in_leap_year() && hebrew_month > 7 {
-        hebrew_month -= 1;
+    // In a leap year Adar I is the sixth month and has no holidays; later months shift down by one.
+    if hebrew_date.is_in_leap_year() {
+        match hebrew_month {
+            6 => return false,
+            7.. => hebrew_month -= 1,
+            _ => {}
+        }
     }
 
     // Check if the date is Independence Day or Memorial Day.
-- 
2.43.0


From 128f2e74fa29ca4df0770dfbe514ca25f225a3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 08/94] fix: get_last_day_of_month returns the weekday of the
 first day of the next month

---
 crates/RustQuant_time/src/utilities.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_time/src/utilities.rs b/crates/RustQuant_time/src/utilities.rs
index 9780f97..94af6ae 100644
--- a/crates/RustQuant_time/src/utilities.rs
+++ b/crates/RustQuant_time/src/utilities.rs
@@ -198,7 +198,7 @@ pub fn get_first_day_of_month(year: i32, month: Month) -> Result<Weekday, Error>
 pub fn get_last_day_of_month(year: i32, month: Month) -> Result<Weekday, Error> {
     let date = Date::from_calendar_date(year, month, 1)?;
 
-    let last_day = date + Duration::days(month.length(year) as i64);
+    let last_day = date + Duration::days(month.length(year) as i64 - 1);
 
     Ok(last_day.weekday())
 }
-- 
2.43.0


From c50382dbd22719eede6922eedf68b1f59cdcb844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 09/94] fix: date_sequence panics on an empty range

---
 crates/RustQuant_time/src/utilities.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_time/src/utilities.rs b/crates/RustQuant_time/src/utilities.rs
index 94af6ae..8ab8a5d 100644
--- a/crates/RustQuant_time/src/utilities.rs
+++ b/crates/RustQuant_time/src/utilities.rs
@@ -178,7 +178,7 @@ pub fn previous_business_day(date: Date, calendar: &Calendar) -> Date {
 
 /// Function to generate a sequence of dates from a start date, end date.
 pub fn date_sequence(start: Date, end: Date) -> Vec<Date> {
-    let mut dates = Vec::with_capacity((end - start).whole_days() as usize);
+    let mut dates = Vec::with_capacity((end - start).whole_days().max(0) as usize);
     let mut current_date = start;
 
     while current_date <= end {
-- 
2.43.0


From 282172090063a9cacb07d70a28b7954ad5ff429f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:53 +0000
Subject: [PATCH 10/94] fix: NL/360 and NL/365 subtract leap years touched
 instead of leap days contained

---
 crates/RustQuant_time/src/day_counting.rs | 10 +++++-----
 crates/RustQuant_time/src/utilities.rs    | 13 +++++++++++++
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/crates/RustQuant_time/src/day_counting.rs b/crates/RustQuant_time/src/day_counting.rs
index 1e5db68..47ce935 100644
--- a/crates/RustQuant_time/src/day_counting.rs
+++ b/crates/RustQuant_time/src/day_counting.rs
@@ -7,7 +7,7 @@
 //      - LICENSE-MIT.md
 // ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
 
-use super::{contains_leap_year, days_between, is_last_day_of_february, leap_year_count};
+use super::{contains_leap_year, days_between, is_last_day_of_february, leap_day_count};
 use pyo3::{pyclass, pymethods};
 use std::fmt;
 use time::{util::is_leap_year, Date, Month};
@@ -187,17 +187,17 @@ impl DayCountConvention {
     // NL/360 day count factor calculation.
     pub(crate) fn day_count_factor_nl_360(start_date: Date, end_date: Date) -> f64 {
         let day_count = (end_date - start_date).whole_days() as f64;
-        let leap_years = leap_year_count(start_date, end_date) as f64;
+        let leap_days = leap_day_count(start_date, end_date) as f64;
 
-        (day_count - leap_years) / 360.0
+        (day_count - leap_days) / 360.0
     }
 
     // NL/365 day count factor calculation.
     pub(crate) fn day_count_factor_nl_365(start_date: Date, end_date: Date) -> f64 {
         let day_count = (end_date - start_date).whole_days() as f64;
-        let leap_years = leap_year_count(start_date, end_date) as f64;
+        let leap_days = leap_day_count(start_date, end_date) as f64;
 
-        (day_count - leap_years) / 365.0
+        (day_count - leap_days) / 365.0
     }
 
     // One/One day count factor calculation.
diff --git a/crates/RustQuant_time/src/utilities.rs b/crates/RustQuant_time/src/utilities.rs
index 8ab8a5d..667f870 100644
--- a/crates/RustQuant_time/src/utilities.rs
+++ b/crates/RustQuant_time/src/utilities.rs
@@ -134,6 +134,19 @@ pub fn leap_year_count(start: Date, end: Date) -> i64 {
         .len() as i64
 }
 
+/// Function to get the number of leap days (29 February) in a range of `Dates`,
+/// excluding the start date and including the end date.
+/// The count is negative if the end date is before the start date.
+pub fn leap_day_count(start: Date, end: Date) -> i64 {
+    let leap_days_up_to = |date: Date| {
+        let y = i64::from(date.year()) - 1;
+        let past_years = y.div_euclid(4) - y.div_euclid(100) + y.div_euclid(400);
+        past_years + i64::from(is_leap_year(date.year()) && date.ordinal() >= 60)
+    };
+
+    leap_days_up_to(end) - leap_days_up_to(start)
+}
+
 /// Function to check if Date is first day of the month.
 pub fn is_first_day_of_month(date: Date) -> bool {
     date.day() == 1
-- 
2.43.0


From 3a5d2520d8baf66d3e50d2a05f5ffaf24aa21318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:53 +0000
Subject: [PATCH 11/94] fix: Act/365 Actual uses 366 for periods that contain
 no leap day

---
 crates/RustQuant_time/src/day_counting.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_time/src/day_counting.rs b/crates/RustQuant_time/src/day_counting.rs
index 47ce935..eedc029 100644
--- a/crates/RustQuant_time/src/day_counting.rs
+++ b/crates/RustQuant_time/src/day_counting.rs
@@ -222,7 +222,7 @@ impl DayCountConvention {
 
     // Actual/365 Actual day count factor calculation.
     pub(crate) fn day_count_factor_actual_365_actual(start_date: Date, end_date: Date) -> f64 {
-        match contains_leap_year(start_date, end_date) {
+        match leap_day_count(start_date, end_date) > 0 {
             true => (end_date - start_date).whole_days() as f64 / 366.0,
             false => (end_date - start_date).whole_days() as f64 / 365.0,
         }
-- 
2.43.0


From ac227a86de633885810f6d1734061420f79ae330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:53 +0000
Subject: [PATCH 12/94] fix: Act/365L uses 366 for periods that contain no leap
 day

---
 crates/RustQuant_time/src/day_counting.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_time/src/day_counting.rs b/crates/RustQuant_time/src/day_counting.rs
index eedc029..be496eb 100644
--- a/crates/RustQuant_time/src/day_counting.rs
+++ b/crates/RustQuant_time/src/day_counting.rs
@@ -235,7 +235,7 @@ impl DayCountConvention {
 
     // Actual/365L day count factor calculation.
     pub(crate) fn day_count_factor_actual_365_leap(start_date: Date, end_date: Date) -> f64 {
-        match contains_leap_year(start_date, end_date) {
+        match leap_day_count(start_date, end_date) > 0 {
             true => (end_date - start_date).whole_days() as f64 / 366.0,
             false => (end_date - start_date).whole_days() as f64 / 365.0,
         }
-- 
2.43.0


From 1951463ce0d18666d705bfce8317d38bf347bce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:23 +0000
Subject: [PATCH 13/94] fix: 30U/360 moves an end-of-February end date when the
 start date is not one

---
 crates/RustQuant_time/src/day_counting.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/RustQuant_time/src/day_counting.rs b/crates/RustQuant_time/src/day_counting.rs
index be496eb..7de2a36 100644
--- a/crates/RustQuant_time/src/day_counting.rs
+++ b/crates/RustQuant_time/src/day_counting.rs
@@ -315,11 +315,18 @@ impl DayCountConvention {
         let (y1, m1, mut d1) = Self::thirty_360_unpack_date(start_date);
         let (y2, m2, mut d2) = Self::thirty_360_unpack_date(end_date);
 
-        if d1 == 31 || is_last_day_of_february(start_date) {
+        if is_last_day_of_february(start_date) {
+            if is_last_day_of_february(end_date) {
+                d2 = 30;
+            }
+            d1 = 30;
+        }
+
+        if d1 == 31 {
             d1 = 30;
         }
 
-        if d2 == 31 && d1 == 30 || is_last_day_of_february(end_date) {
+        if d2 == 31 && d1 == 30 {
             d2 = 30;
         }
 
-- 
2.43.0


From 33745b508f99b87428dac44bc2ea356b5a2f6cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:23 +0000
Subject: [PATCH 14/94] fix: Act/Act AFB drops whole years, panics on 29
 February and misjudges leap days

---
 crates/RustQuant_time/src/day_counting.rs | 40 +++++++++++++++--------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/crates/RustQuant_time/src/day_counting.rs b/crates/RustQuant_time/src/day_counting.rs
index 7de2a36..6f52166 100644
--- a/crates/RustQuant_time/src/day_counting.rs
+++ b/crates/RustQuant_time/src/day_counting.rs
@@ -7,7 +7,7 @@
 //      - LICENSE-MIT.md
 // ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
 
-use super::{contains_leap_year, days_between, is_last_day_of_february, leap_day_count};
+use super::{days_between, is_last_day_of_february, leap_day_count};
 use pyo3::{pyclass, pymethods};
 use std::fmt;
 use time::{util::is_leap_year, Date, Month};
@@ -128,24 +128,36 @@ impl DayCountConvention {
 
     // Actual/Actual AFB day count factor calculation.
     pub(crate) fn day_count_factor_actual_actual_afb(start_date: Date, end_date: Date) -> f64 {
-        let (y1, _y2) = (start_date.year(), end_date.year());
-        let (_m1, m2) = (start_date.month(), end_date.month());
-        let (_d1, d2) = (start_date.day(), end_date.day());
-
-        let stub_date = if Date::from_calendar_date(y1, m2, d2).unwrap() < start_date {
-            Date::from_calendar_date(y1 + 1, m2, d2).unwrap()
-        } else {
-            Date::from_calendar_date(y1, m2, d2).unwrap()
+        // Whole years are counted back from the end date; the end of February stays the end of February.
+        let anniversary = |year: i32| {
+            let day = if is_last_day_of_february(end_date) {
+                Month::February.length(year)
+            } else {
+                end_date.day()
+            };
+            Date::from_calendar_date(year, end_date.month(), day).unwrap()
         };
 
+        let mut stub_date = anniversary(start_date.year());
+        if stub_date < start_date {
+            stub_date = anniversary(start_date.year() + 1);
+        }
+
         let initial_stub_days = (stub_date - start_date).whole_days() as f64;
-        // let final_stub_days = (end_date - stub_date).whole_days() as f64;
         let final_stub_years = (end_date.year() - stub_date.year()) as f64;
-        let initial_stub_contains_leap = contains_leap_year(start_date, stub_date);
 
-        match initial_stub_contains_leap {
-            true => final_stub_years + initial_stub_days / 366.0,
-            false => (end_date - start_date).whole_days() as f64 / 365.0,
+        let is_leap_day =
+            |date: Date| i64::from(date.month() == Month::February && date.day() == 29);
+
+        // A leap day on the stub's first day counts, one on its last day does not.
+        let initial_stub_leap_days = leap_day_count(start_date, stub_date)
+            + is_leap_day(start_date)
+            - is_leap_day(stub_date);
+
+        if initial_stub_leap_days > 0 {
+            final_stub_years + initial_stub_days / 366.0
+        } else {
+            final_stub_years + initial_stub_days / 365.0
         }
     }
 
-- 
2.43.0


From 68b8d3ef4eb57d1a09609ad7aac650a5a5c45c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:19 +0000
Subject: [PATCH 15/94] fix: semi-quarterly frequency is 8 per year, not 6

---
 crates/RustQuant_time/src/constants.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_time/src/constants.rs b/crates/RustQuant_time/src/constants.rs
index d1b9775..b4fdf92 100644
--- a/crates/RustQuant_time/src/constants.rs
+++ b/crates/RustQuant_time/src/constants.rs
@@ -32,7 +32,7 @@ pub(crate) const ANNUALLY: isize = 1;
 pub(crate) const SEMI_ANNUALLY: isize = 2;
 pub(crate) const TRI_ANNUALLY: isize = 3;
 pub(crate) const QUARTERLY: isize = 4;
-pub(crate) const SEMI_QUARTERLY: isize = 6;
+pub(crate) const SEMI_QUARTERLY: isize = 8;
 pub(crate) const MONTHLY: isize = 12;
 pub(crate) const SEMI_MONTHLY: isize = 24;
 pub(crate) const BI_WEEKLY: isize = 26;
-- 
2.43.0


From 8d41b914e4152030ad9603e773e25fc8b90f541d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:36 +0000
Subject: [PATCH 16/94] fix: derivative of cbrt is NaN for negative arguments

---
 crates/RustQuant_autodiff/src/overload.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_autodiff/src/overload.rs b/crates/RustQuant_autodiff/src/overload.rs
index 24f36c6..c7e229c 100644
--- a/crates/RustQuant_autodiff/src/overload.rs
+++ b/crates/RustQuant_autodiff/src/overload.rs
@@ -501,7 +501,7 @@ impl<'v> Variable<'v> {
             index: self.graph.push(
                 Arity::Unary,
                 &[self.index],
-                &[((3.0 * self.value.powf(2.0 / 3.0)).recip())],
+                &[((3.0 * self.value.cbrt().powi(2)).recip())],
             ),
         }
     }
-- 
2.43.0


From 2444ef124898432643e3276a8d2f5b080d37baba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:36 +0000
Subject: [PATCH 17/94] fix: partial derivatives of log with a variable base
 are swapped

---
 crates/RustQuant_autodiff/src/overload.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_autodiff/src/overload.rs b/crates/RustQuant_autodiff/src/overload.rs
index c7e229c..5b478ad 100644
--- a/crates/RustQuant_autodiff/src/overload.rs
+++ b/crates/RustQuant_autodiff/src/overload.rs
@@ -1031,8 +1031,8 @@ impl<'v> Log<Variable<'v>> for Variable<'v> {
                 Arity::Binary,
                 &[self.index, base.index],
                 &[
-                    -f64::ln(self.value) / (base.value * f64::ln(base.value).powi(2)),
                     1.0 / (self.value * f64::ln(base.value)),
+                    -f64::ln(self.value) / (base.value * f64::ln(base.value).powi(2)),
                 ],
             ),
         }
-- 
2.43.0


From c325130704d7e166a14c2e6941abd0cceac78e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:36 +0000
Subject: [PATCH 18/94] fix: derivative of a constant raised to a variable uses
 the power rule

---
 crates/RustQuant_autodiff/src/overload.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/RustQuant_autodiff/src/overload.rs b/crates/RustQuant_autodiff/src/overload.rs
index 5b478ad..cb409a8 100644
--- a/crates/RustQuant_autodiff/src/overload.rs
+++ b/crates/RustQuant_autodiff/src/overload.rs
@@ -1413,7 +1413,7 @@ impl<'v> Powf<Variable<'v>> for f64 {
             index: other.graph.push(
                 Arity::Binary,
                 &[other.index, other.index],
-                &[0.0, other.value * f64::powf(*self, other.value - 1.0)],
+                &[0.0, f64::powf(*self, other.value) * f64::ln(*self)],
             ),
         }
     }
@@ -1481,7 +1481,7 @@ impl<'v> Powi<Variable<'v>> for f64 {
             index: other.graph.push(
                 Arity::Binary,
                 &[other.index, other.index],
-                &[0.0, other.value * f64::powf(*self, other.value - 1.0)],
+                &[0.0, f64::powf(*self, other.value) * f64::ln(*self)],
             ),
         }
     }
-- 
2.43.0


From b6dd6b4d6652cdcbe1a11785c41e37347949ba92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:36 +0000
Subject: [PATCH 19/94] fix: derivative of the zeroth power is NaN at zero

---
 crates/RustQuant_autodiff/src/overload.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/crates/RustQuant_autodiff/src/overload.rs b/crates/RustQuant_autodiff/src/overload.rs
index cb409a8..7013e59 100644
--- a/crates/RustQuant_autodiff/src/overload.rs
+++ b/crates/RustQuant_autodiff/src/overload.rs
@@ -1395,7 +1395,14 @@ impl<'v> Powf<f64> for Variable<'v> {
             index: self.graph.push(
                 Arity::Binary,
                 &[self.index, self.index],
-                &[n * f64::powf(self.value, n - 1.0), 0.0],
+                &[
+                    if n == 0.0 {
+                        0.0
+                    } else {
+                        n * f64::powf(self.value, n - 1.0)
+                    },
+                    0.0,
+                ],
             ),
         }
     }
@@ -1463,7 +1470,14 @@ impl<'v> Powi<i32> for Variable<'v> {
             index: self.graph.push(
                 Arity::Binary,
                 &[self.index, self.index],
-                &[f64::from(n) * f64::powi(self.value, n - 1), 0.0],
+                &[
+                    if n == 0 {
+                        0.0
+                    } else {
+                        f64::from(n) * f64::powi(self.value, n - 1)
+                    },
+                    0.0,
+                ],
             ),
         }
     }
-- 
2.43.0


From e3b39cef57f91028292c4c097e113574aca61e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:36 +0000
Subject: [PATCH 20/94] fix: joining graphs leaves the second graph's parents
 pointing into the first

---
 crates/RustQuant_autodiff/src/graph.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/RustQuant_autodiff/src/graph.rs b/crates/RustQuant_autodiff/src/graph.rs
index b161f09..6c46e30 100644
--- a/crates/RustQuant_autodiff/src/graph.rs
+++ b/crates/RustQuant_autodiff/src/graph.rs
@@ -66,7 +66,11 @@ impl Graph {
     #[inline]
     pub fn join(&self, other: &Self) -> Self {
         let graph = self.clone();
-        let other = other.vertices.borrow_mut().clone();
+        let offset = graph.len();
+        let mut other = other.vertices.borrow().clone();
+        for vertex in &mut other {
+            vertex.parents = vertex.parents.map(|parent| parent + offset);
+        }
         graph.vertices.borrow_mut().extend(other);
         graph
     }
-- 
2.43.0


From 0ea23f5a8364fbde80faa8e365b4bb9f51ec577f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:09 +0000
Subject: [PATCH 21/94] fix: Bernoulli cdf is zero for every negative argument

---
 crates/RustQuant_math/src/distributions/bernoulli.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_math/src/distributions/bernoulli.rs b/crates/RustQuant_math/src/distributions/bernoulli.rs
index 6bd40cc..b1a28da 100644
--- a/crates/RustQuant_math/src/distributions/bernoulli.rs
+++ b/crates/RustQuant_math/src/distributions/bernoulli.rs
@@ -117,7 +117,7 @@ impl Distribution for Bernoulli {
     fn cdf(&self, k: f64) -> f64 {
         assert!((0.0..=1.0).contains(&self.p));
 
-        if (k as i32) < 0 {
+        if k < 0.0 {
             0.0
         } else if (0..1).contains(&(k as i32)) {
             1.0 - self.p
-- 
2.43.0


From c7283fd93ecb10204a5ca5e93bf1cef57b26d05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:09 +0000
Subject: [PATCH 22/94] fix: Binomial pmf no longer overflows the factorials
 for 13 or more trials

---
 crates/RustQuant_math/src/distributions/binomial.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/RustQuant_math/src/distributions/binomial.rs b/crates/RustQuant_math/src/distributions/binomial.rs
index d9f3232..9c4c538 100644
--- a/crates/RustQuant_math/src/distributions/binomial.rs
+++ b/crates/RustQuant_math/src/distributions/binomial.rs
@@ -113,11 +113,11 @@ impl Distribution for Binomial {
         assert!(k as usize <= self.n);
         assert!((0.0..=1.0).contains(&self.p));
 
-        let n_C_k = |n: u32, k: u32| -> u32 {
-            (1..=n).product::<u32>() / ((1..=k).product::<u32>() * (1..=(n - k)).product::<u32>())
+        let n_C_k = |n: usize, k: usize| -> f64 {
+            (1..=k).map(|j| (n - k + j) as f64 / j as f64).product()
         };
 
-        n_C_k(self.n as u32, k as u32) as f64
+        n_C_k(self.n, k as usize)
             * self.p.powi(k as i32)
             * (1.0 - self.p).powi((self.n - k as usize) as i32)
     }
-- 
2.43.0


From 4004e252c5bcb8f82cd1097b494826540281c6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:09 +0000
Subject: [PATCH 23/94] fix: Binomial cdf is defined outside and at the end of
 the support

---
 crates/RustQuant_math/src/distributions/binomial.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/RustQuant_math/src/distributions/binomial.rs b/crates/RustQuant_math/src/distributions/binomial.rs
index 9c4c538..2b522d2 100644
--- a/crates/RustQuant_math/src/distributions/binomial.rs
+++ b/crates/RustQuant_math/src/distributions/binomial.rs
@@ -133,6 +133,13 @@ impl Distribution for Binomial {
     /// assert_approx_equal!(binomial.cdf(3.0), 0.9129600, 1e-7);
     /// ```
     fn cdf(&self, k: f64) -> f64 {
+        if k < 0.0 {
+            return 0.0;
+        }
+        if k >= self.n as f64 {
+            return 1.0;
+        }
+
         statrs::function::beta::beta_reg((self.n - k as usize) as f64, 1_f64 + k, 1_f64 - self.p)
     }
 
-- 
2.43.0


From cd19f1f2189f7f0e285e1dc269966557e0c599f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:09 +0000
Subject: [PATCH 24/94] fix: Binomial median is the median, not the floor of
 the mean

---
 crates/RustQuant_math/src/distributions/binomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_math/src/distributions/binomial.rs b/crates/RustQuant_math/src/distributions/binomial.rs
index 2b522d2..7cab866 100644
--- a/crates/RustQuant_math/src/distributions/binomial.rs
+++ b/crates/RustQuant_math/src/distributions/binomial.rs
@@ -187,7 +187,7 @@ impl Distribution for Binomial {
     /// assert_eq!(binomial.median(), 2.0);
     ///
     fn median(&self) -> f64 {
-        self.mean().floor()
+        self.inv_cdf(0.5)
     }
 
     /// Mode of the Binomial distribution.
-- 
2.43.0


From 98149f3a7320e9b7f21b2f9458ff79ccd7ffa62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:09 +0000
Subject: [PATCH 25/94] fix: Binomial mode stays within the support when p is
 one

---
 crates/RustQuant_math/src/distributions/binomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_math/src/distributions/binomial.rs b/crates/RustQuant_math/src/distributions/binomial.rs
index 7cab866..0050e76 100644
--- a/crates/RustQuant_math/src/distributions/binomial.rs
+++ b/crates/RustQuant_math/src/distributions/binomial.rs
@@ -200,7 +200,7 @@ impl Distribution for Binomial {
     /// assert_eq!(binomial.mode(), 2.0);
     /// ```
     fn mode(&self) -> f64 {
-        ((self.n as f64 + 1.) * self.p).floor()
+        ((self.n as f64 + 1.) * self.p).floor().min(self.n as f64)
     }
 
     /// Variance of the Binomial distribution.
-- 
2.43.0


From 954191fc5c5d4af1a1519fa8f46dc789a8167d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:09 +0000
Subject: [PATCH 26/94] fix: Binomial sample uses the number of trials, not the
 sample size

---
 crates/RustQuant_math/src/distributions/binomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_math/src/distributions/binomial.rs b/crates/RustQuant_math/src/distributions/binomial.rs
index 0050e76..31fc9be 100644
--- a/crates/RustQuant_math/src/distributions/binomial.rs
+++ b/crates/RustQuant_math/src/distributions/binomial.rs
@@ -294,7 +294,7 @@ impl Distribution for Binomial {
 
         let mut rng = thread_rng();
 
-        let dist = Binomial::new(n as u64, self.p)?;
+        let dist = Binomial::new(self.n as u64, self.p)?;
 
         let mut variates: Vec<f64> = Vec::with_capacity(n);
 
-- 
2.43.0


From 6cc4272bc8532f6c1b601a33a8b3ad0e395b1aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:35 +0000
Subject: [PATCH 27/94] fix: ChiSquared quantile covers the whole support

---
 .../src/distributions/chi_squared.rs          | 32 +++++++++++++------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/crates/RustQuant_math/src/distributions/chi_squared.rs b/crates/RustQuant_math/src/distributions/chi_squared.rs
index 2b89880..d078ee8 100644
--- a/crates/RustQuant_math/src/distributions/chi_squared.rs
+++ b/crates/RustQuant_math/src/distributions/chi_squared.rs
@@ -142,20 +142,32 @@ impl Distribution for ChiSquared {
     fn inv_cdf(&self, p: f64) -> f64 {
         assert!((0.0..=1.0).contains(&p));
 
-        let k = self.k as f64;
-        let mut x = 0.5 * k;
-        let mut delta = 0.5 * k;
+        if p == 0.0 {
+            return 0.0;
+        }
+        if p == 1.0 {
+            return f64::INFINITY;
+        }
+
+        let mut lower = 0.0;
+        let mut upper = self.k as f64;
 
-        while delta > 1e-10 {
-            let cdf = self.cdf(x);
-            if cdf < p {
-                x += delta;
+        while self.cdf(upper) < p {
+            lower = upper;
+            upper *= 2.0;
+        }
+
+        while upper - lower > 1e-12 * upper {
+            let mid = 0.5 * (lower + upper);
+
+            if self.cdf(mid) < p {
+                lower = mid;
             } else {
-                x -= delta;
+                upper = mid;
             }
-            delta *= 0.5;
         }
-        x
+
+        0.5 * (lower + upper)
     }
 
     /// Mean of the Chi-Squared distribution.
-- 
2.43.0


From 315024f70904f5a54ee56dd48e47ee18b8b9f551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:35 +0000
Subject: [PATCH 28/94] fix: ChiSquared and Gamma samples are no longer
 truncated to integers

---
 crates/RustQuant_math/src/distributions/chi_squared.rs | 2 +-
 crates/RustQuant_math/src/distributions/gamma.rs       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/RustQuant_math/src/distributions/chi_squared.rs b/crates/RustQuant_math/src/distributions/chi_squared.rs
index d078ee8..2196eef 100644
--- a/crates/RustQuant_math/src/distributions/chi_squared.rs
+++ b/crates/RustQuant_math/src/distributions/chi_squared.rs
@@ -309,7 +309,7 @@ impl Distribution for ChiSquared {
         let mut variates: Vec<f64> = Vec::with_capacity(n);
 
         for _ in 0..variates.capacity() {
-            variates.push(dist.sample(&mut rng) as usize as f64);
+            variates.push(dist.sample(&mut rng));
         }
 
         Ok(variates)
diff --git a/crates/RustQuant_math/src/distributions/gamma.rs b/crates/RustQuant_math/src/distributions/gamma.rs
index dabfa41..8a6fec9 100644
--- a/crates/RustQuant_math/src/distributions/gamma.rs
+++ b/crates/RustQuant_math/src/distributions/gamma.rs
@@ -139,7 +139,7 @@ impl Distribution for Gamma {
         let mut variates: Vec<f64> = Vec::with_capacity(n);
 
         for _ in 0..variates.capacity() {
-            variates.push(dist.sample(&mut rng) as usize as f64);
+            variates.push(dist.sample(&mut rng));
         }
 
         Ok(variates)
-- 
2.43.0


From 75903b67fede05c37f94c73e287c6609eb98da23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:35 +0000
Subject: [PATCH 29/94] fix: Poisson pmf no longer overflows the factorial
 beyond 20

---
 crates/RustQuant_math/src/distributions/poisson.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/RustQuant_math/src/distributions/poisson.rs b/crates/RustQuant_math/src/distributions/poisson.rs
index 24eed4f..3dac1a5 100644
--- a/crates/RustQuant_math/src/distributions/poisson.rs
+++ b/crates/RustQuant_math/src/distributions/poisson.rs
@@ -93,8 +93,10 @@ impl Distribution for Poisson {
     /// assert_approx_equal!(poisson.pmf(1.0), poisson.pdf(1.0), 1e-7);
     /// ```
     fn pmf(&self, x: f64) -> f64 {
-        (self.lambda).powi(x as i32) * (-(self.lambda)).exp()
-            / ((1..=x as usize).product::<usize>() as f64)
+        (1..=x as usize)
+            .map(|k| self.lambda / k as f64)
+            .product::<f64>()
+            * (-(self.lambda)).exp()
     }
 
     /// Cumulative distribution function of the Poisson distribution.
-- 
2.43.0


From a7848e04e1ca34d229e1711ddb0ba0d9c05d9796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:35 +0000
Subject: [PATCH 30/94] fix: Poisson quantile at probability zero is zero

---
 crates/RustQuant_math/src/distributions/poisson.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_math/src/distributions/poisson.rs b/crates/RustQuant_math/src/distributions/poisson.rs
index 3dac1a5..9874571 100644
--- a/crates/RustQuant_math/src/distributions/poisson.rs
+++ b/crates/RustQuant_math/src/distributions/poisson.rs
@@ -141,7 +141,7 @@ impl Distribution for Poisson {
             sum += self.pmf(f64::from(k));
             k += 1;
         }
-        f64::from(k - 1)
+        f64::from(0.max(k - 1))
     }
 
     /// Returns the mean of the Poisson distribution.
-- 
2.43.0


From 802d149f5a9f28bc382355118c0efdd89abf7853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:35 +0000
Subject: [PATCH 31/94] fix: Poisson median is never negative

---
 crates/RustQuant_math/src/distributions/poisson.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/RustQuant_math/src/distributions/poisson.rs b/crates/RustQuant_math/src/distributions/poisson.rs
index 9874571..bd153c6 100644
--- a/crates/RustQuant_math/src/distributions/poisson.rs
+++ b/crates/RustQuant_math/src/distributions/poisson.rs
@@ -167,7 +167,9 @@ impl Distribution for Poisson {
     /// assert_eq!(poisson.median(), 1.0);
     /// ```
     fn median(&self) -> f64 {
-        (self.lambda + 1.0 / 3.0 - 0.02 / self.lambda).floor()
+        (self.lambda + 1.0 / 3.0 - 0.02 / self.lambda)
+            .floor()
+            .max(0.0)
     }
 
     /// Returns the mode of the Poisson distribution.
-- 
2.43.0


From 4f432cff23bf860db75cc860f5b5515103f97fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:35 +0000
Subject: [PATCH 32/94] fix: variance of the discrete Uniform distribution

---
 crates/RustQuant_math/src/distributions/uniform.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_math/src/distributions/uniform.rs b/crates/RustQuant_math/src/distributions/uniform.rs
index 2f25ddb..563be43 100644
--- a/crates/RustQuant_math/src/distributions/uniform.rs
+++ b/crates/RustQuant_math/src/distributions/uniform.rs
@@ -256,7 +256,7 @@ impl Distribution for Uniform {
     /// ```
     fn variance(&self) -> f64 {
         match self.class {
-            DistributionClass::Discrete => (self.b - self.a + 1.0).powi(2) / 12.0,
+            DistributionClass::Discrete => ((self.b - self.a + 1.0).powi(2) - 1.0) / 12.0,
             DistributionClass::Continuous => (self.b - self.a).powi(2) / 12.0,
         }
     }
-- 
2.43.0


From 569d486575ea4621eba87b0613bcff4ce63a8eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:35 +0000
Subject: [PATCH 33/94] fix: discrete Uniform samples cover the whole support

---
 crates/RustQuant_math/src/distributions/uniform.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/RustQuant_math/src/distributions/uniform.rs b/crates/RustQuant_math/src/distributions/uniform.rs
index 563be43..f992a0f 100644
--- a/crates/RustQuant_math/src/distributions/uniform.rs
+++ b/crates/RustQuant_math/src/distributions/uniform.rs
@@ -356,16 +356,18 @@ impl Distribution for Uniform {
 
         let mut rng = thread_rng();
 
-        let dist = Uniform::new(self.a, self.b);
-
         let mut variates: Vec<f64> = Vec::with_capacity(n);
         match self.class {
             DistributionClass::Discrete => {
+                let dist = Uniform::new_inclusive(self.a as i64, self.b as i64);
+
                 for _ in 0..variates.capacity() {
-                    variates.push(dist.sample(&mut rng) as usize as f64);
+                    variates.push(dist.sample(&mut rng) as f64);
                 }
             }
             DistributionClass::Continuous => {
+                let dist = Uniform::new(self.a, self.b);
+
                 for _ in 0..variates.capacity() {
                     variates.push(dist.sample(&mut rng));
                 }
-- 
2.43.0


From 7c5b24d42e212940eebcf2cbe5652769b127649f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:35 +0000
Subject: [PATCH 34/94] fix: real FFT returns the moduli of the Fourier
 coefficients

---
 crates/RustQuant_math/src/fft.rs | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/crates/RustQuant_math/src/fft.rs b/crates/RustQuant_math/src/fft.rs
index 79bc244..c531ed4 100644
--- a/crates/RustQuant_math/src/fft.rs
+++ b/crates/RustQuant_math/src/fft.rs
@@ -70,25 +70,14 @@ fn check_vec_length<T>(x: &[T]) {
     );
 }
 
-/// Real fourier transform in place
+/// Real fourier transform in place (modulus of each Fourier coefficient)
 fn fft_real_calculation(x: &mut [f64]) {
-    let n = x.len();
-    if n == 1 {
-        return;
-    }
+    let mut z: Vec<Complex<f64>> = x.iter().map(|&re| Complex::new(re, 0.0)).collect();
 
-    let (mut even, mut odd) = split_array(x);
+    fft_complex_calculation(&mut z);
 
-    fft_real_calculation(&mut even);
-    fft_real_calculation(&mut odd);
-
-    for k in 0..(n / 2) {
-        let t = Complex::new(0.0, -2.0 * PI * (k as f64) / (n as f64))
-            .exp()
-            .norm()
-            * odd[k];
-        x[k] = even[k] + t;
-        x[n / 2 + k] = even[k] - t;
+    for (x_value, z_value) in x.iter_mut().zip(z) {
+        *x_value = z_value.norm();
     }
 }
 
-- 
2.43.0


From fd457837d4d6b3494aea73125b18a2ba3cccf11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:35 +0000
Subject: [PATCH 35/94] fix: B-spline is continuous at the last knot of its
 range

---
 crates/RustQuant_math/src/interpolation/b_splines.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/RustQuant_math/src/interpolation/b_splines.rs b/crates/RustQuant_math/src/interpolation/b_splines.rs
index 7381331..facd270 100644
--- a/crates/RustQuant_math/src/interpolation/b_splines.rs
+++ b/crates/RustQuant_math/src/interpolation/b_splines.rs
@@ -77,7 +77,12 @@ where
     /// Cox de Boor algorithm to evalute the spline curves.
     fn cox_de_boor(&self, point: IndexType, index: usize, degree: usize) -> ValueType {
         if degree == 0 {
-            return if point.ge(&self.knots[index]) && point.lt(&self.knots[index + 1]) {
+            // Each span is half-open, except that the last one includes the last knot.
+            let at_end = point == *self.knots.last().unwrap()
+                && point == self.knots[index + 1]
+                && self.knots[index].lt(&self.knots[index + 1]);
+
+            return if at_end || point.ge(&self.knots[index]) && point.lt(&self.knots[index + 1]) {
                 ValueType::one()
             } else {
                 ValueType::zero()
-- 
2.43.0


From 77dc844ea5abd75d48cf876b59d30a3cca2ddcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:50 +0000
Subject: [PATCH 36/94] fix: gradient descent reports the function value at the
 minimizer it returns

---
 crates/RustQuant_math/src/optimization/gradient_descent.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/RustQuant_math/src/optimization/gradient_descent.rs b/crates/RustQuant_math/src/optimization/gradient_descent.rs
index 6db87ba..8e1aa82 100644
--- a/crates/RustQuant_math/src/optimization/gradient_descent.rs
+++ b/crates/RustQuant_math/src/optimization/gradient_descent.rs
@@ -190,8 +190,6 @@ impl GradientDescent {
                 .zip(&gradient)
                 .for_each(|(xi, gi)| *xi = *xi - self.learning_rate * gi);
 
-            result.minimum = f(&location).value;
-
             if verbose {
                 println!(
                     "Iter: {:?}, Norm: {}, Func: {:.4?}, X: {:.4?}",
@@ -213,6 +211,9 @@ impl GradientDescent {
             // }
         }
 
+        let graph = Graph::new();
+        result.minimum = f(&graph.vars(&result.minimizer)).value;
+
         result.elapsed = start.elapsed();
         result
     }
-- 
2.43.0


From d2d3bad900e22fc480a129761ccbbf42586b0100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:45 +0000
Subject: [PATCH 37/94] fix: Binomial pmf refuses negative arguments

---
 crates/RustQuant_math/src/distributions/binomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_math/src/distributions/binomial.rs b/crates/RustQuant_math/src/distributions/binomial.rs
index 31fc9be..1726b32 100644
--- a/crates/RustQuant_math/src/distributions/binomial.rs
+++ b/crates/RustQuant_math/src/distributions/binomial.rs
@@ -110,7 +110,7 @@ impl Distribution for Binomial {
     /// assert_approx_equal!(pmf, 0.2304000, 1e-7);
     /// ```
     fn pmf(&self, k: f64) -> f64 {
-        assert!(k as usize <= self.n);
+        assert!(k >= 0.0 && k as usize <= self.n);
         assert!((0.0..=1.0).contains(&self.p));
 
         let n_C_k = |n: usize, k: usize| -> f64 {
-- 
2.43.0


From 94f53170b1664902f7143a7b211b0782e1a0cf2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:45 +0000
Subject: [PATCH 38/94] fix: Poisson pmf is zero for negative arguments

---
 crates/RustQuant_math/src/distributions/poisson.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/RustQuant_math/src/distributions/poisson.rs b/crates/RustQuant_math/src/distributions/poisson.rs
index bd153c6..6e1214b 100644
--- a/crates/RustQuant_math/src/distributions/poisson.rs
+++ b/crates/RustQuant_math/src/distributions/poisson.rs
@@ -93,6 +93,10 @@ impl Distribution for Poisson {
     /// assert_approx_equal!(poisson.pmf(1.0), poisson.pdf(1.0), 1e-7);
     /// ```
     fn pmf(&self, x: f64) -> f64 {
+        if x < 0.0 {
+            return 0.0;
+        }
+
         (1..=x as usize)
             .map(|k| self.lambda / k as f64)
             .product::<f64>()
-- 
2.43.0


From 82bea60cbcbc29d7dd4762a20ed7769e3dbc82ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:45 +0000
Subject: [PATCH 39/94] fix: Uniform generating and characteristic functions
 are one at zero

---
 crates/RustQuant_math/src/distributions/uniform.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/RustQuant_math/src/distributions/uniform.rs b/crates/RustQuant_math/src/distributions/uniform.rs
index f992a0f..ba4a897 100644
--- a/crates/RustQuant_math/src/distributions/uniform.rs
+++ b/crates/RustQuant_math/src/distributions/uniform.rs
@@ -74,6 +74,10 @@ impl Distribution for Uniform {
     /// assert_approx_equal!(cf.im, 0.4596977, 1e-7);
     /// ```
     fn cf(&self, t: f64) -> Complex<f64> {
+        if t == 0.0 {
+            return Complex::new(1.0, 0.0);
+        }
+
         let i: Complex<f64> = Complex::i();
 
         match self.class {
@@ -322,6 +326,10 @@ impl Distribution for Uniform {
     /// assert_approx_equal!(dist.mgf(1.0), 1.7182818, 1e-7);
     /// ```
     fn mgf(&self, t: f64) -> f64 {
+        if t == 0.0 {
+            return 1.0;
+        }
+
         let n = self.b - self.a + 1.0;
 
         match self.class {
-- 
2.43.0


From d1fb83d2c49a238d9edefe80739ccc23633a138a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:45 +0000
Subject: [PATCH 40/94] fix: B-spline range is the interval on which it can be
 evaluated

---
 crates/RustQuant_math/src/interpolation/b_splines.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/RustQuant_math/src/interpolation/b_splines.rs b/crates/RustQuant_math/src/interpolation/b_splines.rs
index facd270..de33353 100644
--- a/crates/RustQuant_math/src/interpolation/b_splines.rs
+++ b/crates/RustQuant_math/src/interpolation/b_splines.rs
@@ -119,7 +119,10 @@ where
     }
 
     fn range(&self) -> (IndexType, IndexType) {
-        (*self.knots.first().unwrap(), *self.knots.last().unwrap())
+        (
+            self.knots[self.degree],
+            self.knots[self.knots.len() - self.degree - 1],
+        )
     }
 
     fn add_point(&mut self, point: (IndexType, ValueType)) {
-- 
2.43.0


From 60672b800097ef18f287a5330e4f81d8c05ec696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:29 +0000
Subject: [PATCH 41/94] fix: bisection returns the point at which the function
 vanished

---
 crates/RustQuant_math/src/rootfinding/bisection.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/RustQuant_math/src/rootfinding/bisection.rs b/crates/RustQuant_math/src/rootfinding/bisection.rs
index abcad7a..2da013d 100644
--- a/crates/RustQuant_math/src/rootfinding/bisection.rs
+++ b/crates/RustQuant_math/src/rootfinding/bisection.rs
@@ -68,7 +68,10 @@ where
             if f_mid <= 0.0 {
                 self.data.root = x_mid;
             }
-            if dx.abs() < self.data.accuracy || RootfinderData::close(f_mid, 0.0) {
+            if RootfinderData::close(f_mid, 0.0) {
+                return x_mid;
+            }
+            if dx.abs() < self.data.accuracy {
                 return self.data.root;
             }
         }
-- 
2.43.0


From 34ab6bdf83fa9dc5d341f81ebc980bb9f4a73937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:29 +0000
Subject: [PATCH 42/94] fix: Newton-Raphson returns a root found exactly even
 where the derivative is zero

---
 crates/RustQuant_math/src/rootfinding/newton_raphson.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/RustQuant_math/src/rootfinding/newton_raphson.rs b/crates/RustQuant_math/src/rootfinding/newton_raphson.rs
index ef47acd..4b2e7aa 100644
--- a/crates/RustQuant_math/src/rootfinding/newton_raphson.rs
+++ b/crates/RustQuant_math/src/rootfinding/newton_raphson.rs
@@ -76,6 +76,10 @@ where
         self.data.increment_evaluation_count();
 
         while self.data.iteration_count <= Self::MAX_ITERATIONS {
+            if froot == 0.0 {
+                return self.data.root;
+            }
+
             let check_1 = (self.data.root - xh) * dfroot - froot;
             let check_2 = (self.data.root - xl) * dfroot - froot;
             let check_3 = (2.0 * froot).abs() > (dxold * dfroot).abs();
-- 
2.43.0


From f50bbaf32d88961e43a4480a9ad5d5cdecd7d55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:07 +0000
Subject: [PATCH 43/94] fix: ultima is the derivative of vomma with respect to
 volatility

---
 .../RustQuant_instruments/src/options/black_scholes_merton.rs | 2 +-
 crates/RustQuant_instruments/src/options/option_models.rs     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/RustQuant_instruments/src/options/black_scholes_merton.rs b/crates/RustQuant_instruments/src/options/black_scholes_merton.rs
index 9cf802d..ba76818 100644
--- a/crates/RustQuant_instruments/src/options/black_scholes_merton.rs
+++ b/crates/RustQuant_instruments/src/options/black_scholes_merton.rs
@@ -326,7 +326,7 @@ impl BlackScholesMerton {
     pub fn ultima(&self) -> f64 {
         let (d1, d2) = self.d1_d2();
 
-        (self.vomma() / self.volatility) * (d1 * d2 - d1 / d2 + d2 / d1 - 1.0)
+        self.vega() / self.volatility.powi(2) * (d1 * d2 * (d1 * d2 - 1.0) - d1 * d1 - d2 * d2)
     }
 
     /// Vega Bleed of the generalised Black-Scholes European option.
diff --git a/crates/RustQuant_instruments/src/options/option_models.rs b/crates/RustQuant_instruments/src/options/option_models.rs
index 391d541..a75a80a 100644
--- a/crates/RustQuant_instruments/src/options/option_models.rs
+++ b/crates/RustQuant_instruments/src/options/option_models.rs
@@ -512,7 +512,7 @@ mod bsm {
         let d1 = d1(s, k, t, b, v);
         let d2 = d2(s, k, t, b, v);
 
-        (call_vomma(s, k, t, r, b, v) / v) * (d1 * d2 - d1 / d2 + d2 / d1 - 1.0)
+        call_vega(s, k, t, r, b, v) / v.powi(2) * (d1 * d2 * (d1 * d2 - 1.0) - d1 * d1 - d2 * d2)
     }
 
     #[inline]
@@ -520,7 +520,7 @@ mod bsm {
         let d1 = d1(s, k, t, b, v);
         let d2 = d2(s, k, t, b, v);
 
-        (put_vomma(s, k, t, r, b, v) / v) * (d1 * d2 - d1 / d2 + d2 / d1 - 1.0)
+        put_vega(s, k, t, r, b, v) / v.powi(2) * (d1 * d2 * (d1 * d2 - 1.0) - d1 * d1 - d2 * d2)
     }
 }
 
-- 
2.43.0


From aa140b17ef03859b2e936cfa3439cd2ab229d0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:07 +0000
Subject: [PATCH 44/94] fix: rho of options on futures only moves the discount
 factor

---
 .../src/options/option_models.rs                  | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/crates/RustQuant_instruments/src/options/option_models.rs b/crates/RustQuant_instruments/src/options/option_models.rs
index a75a80a..1e2a6e5 100644
--- a/crates/RustQuant_instruments/src/options/option_models.rs
+++ b/crates/RustQuant_instruments/src/options/option_models.rs
@@ -143,6 +143,9 @@ pub trait GeneralisedBlackScholesMerton {
 // ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
 
 impl BlackScholes73 {
+    /// Whether the cost of carry changes along with the risk-free rate.
+    const CARRY_MOVES_WITH_RATE: bool = true;
+
     /// Create a new Black-Scholes (1973) option pricing parameters.
     pub fn new(s: f64, r: f64, v: f64) -> Self {
         Self { s, r, v }
@@ -165,6 +168,8 @@ impl BlackScholes73 {
 }
 
 impl Merton73 {
+    const CARRY_MOVES_WITH_RATE: bool = true;
+
     /// Create a new Merton (1973) option pricing parameters.
     pub fn new(s: f64, r: f64, q: f64, v: f64) -> Self {
         Self { s, r, q, v }
@@ -187,6 +192,8 @@ impl Merton73 {
 }
 
 impl Black76 {
+    const CARRY_MOVES_WITH_RATE: bool = false;
+
     /// Create a new Black (1976) option pricing parameters.
     pub fn new(f: f64, r: f64, v: f64) -> Self {
         Self { f, r, v }
@@ -209,6 +216,8 @@ impl Black76 {
 }
 
 impl Asay82 {
+    const CARRY_MOVES_WITH_RATE: bool = false;
+
     /// Create a new Asay (1982) option pricing parameters.
     pub fn new(f: f64, v: f64) -> Self {
         Self { f, v }
@@ -231,6 +240,8 @@ impl Asay82 {
 }
 
 impl GarmanKohlhagen83 {
+    const CARRY_MOVES_WITH_RATE: bool = true;
+
     /// Create a new Garman-Kohlhagen (1983) option pricing parameters.
     pub fn new(s: f64, r_d: f64, r_f: f64, v: f64) -> Self {
         Self { s, r_d, r_f, v }
@@ -572,6 +583,10 @@ macro_rules! impl_gbsm {
             }
 
             fn rho(&self, k: f64, t: f64, option_type: TypeFlag) -> f64 {
+                if !Self::CARRY_MOVES_WITH_RATE {
+                    return -t * self.price(k, t, option_type);
+                }
+
                 match option_type {
                     TypeFlag::Call => bsm::call_rho(self.s(), k, t, self.r(), self.b(), self.v),
                     TypeFlag::Put => bsm::put_rho(self.s(), k, t, self.r(), self.b(), self.v),
-- 
2.43.0


From ca5e2fce61fa21f5a7a947584c5996f8645da945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:07 +0000
Subject: [PATCH 45/94] fix: implied volatility of the generalised model
 ignored the cost of carry

---
 .../RustQuant_instruments/src/options/black_scholes_merton.rs  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/RustQuant_instruments/src/options/black_scholes_merton.rs b/crates/RustQuant_instruments/src/options/black_scholes_merton.rs
index ba76818..73daa4d 100644
--- a/crates/RustQuant_instruments/src/options/black_scholes_merton.rs
+++ b/crates/RustQuant_instruments/src/options/black_scholes_merton.rs
@@ -143,7 +143,8 @@ impl BlackScholesMerton {
     pub fn implied_volatility(&self, price: f64) -> f64 {
         crate::options::implied_volatility(
             price,
-            self.underlying_price,
+            self.underlying_price
+                * ((self.cost_of_carry - self.risk_free_rate) * self.year_fraction()).exp(),
             self.strike_price,
             self.year_fraction(),
             self.risk_free_rate,
-- 
2.43.0


From ac31f5b7da13388cf6d8b7f594b9fe20eb8fa7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:07 +0000
Subject: [PATCH 46/94] fix: geometric average of a long path no longer
 overflows

---
 crates/RustQuant_instruments/src/options/asian.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/RustQuant_instruments/src/options/asian.rs b/crates/RustQuant_instruments/src/options/asian.rs
index 9c27aef..c1e694a 100644
--- a/crates/RustQuant_instruments/src/options/asian.rs
+++ b/crates/RustQuant_instruments/src/options/asian.rs
@@ -52,7 +52,9 @@ impl Payoff for AsianOption {
 
         let average = match self.averaging_method {
             AveragingMethod::ArithmeticDiscrete => path.sum::<f64>() / n as f64,
-            AveragingMethod::GeometricDiscrete => path.product::<f64>().powf(1.0 / n as f64),
+            AveragingMethod::GeometricDiscrete => {
+                (path.map(|x| x.ln()).sum::<f64>() / n as f64).exp()
+            }
 
             // Continuous averaging (i.e. integral of the path).
             _ => panic!("Continuous averaging not implemented."),
-- 
2.43.0


From db9a306f88d70c11d37eb646cecd79586035b470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:07 +0000
Subject: [PATCH 47/94] fix: barrier options pay their rebate when they expire
 without a payoff because of the barrier

---
 .../src/options/barrier.rs                      | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/crates/RustQuant_instruments/src/options/barrier.rs b/crates/RustQuant_instruments/src/options/barrier.rs
index 5ca052d..62db9a5 100644
--- a/crates/RustQuant_instruments/src/options/barrier.rs
+++ b/crates/RustQuant_instruments/src/options/barrier.rs
@@ -37,6 +37,7 @@ impl Payoff for BarrierOption {
         let s = underlying;
         let b = self.barrier;
         let k = self.strike;
+        let rebate = self.rebate.unwrap_or(0.0);
 
         let terminal = s.last().unwrap();
 
@@ -49,20 +50,20 @@ impl Payoff for BarrierOption {
 
                 match self.barrier_type {
                     BarrierType::UpAndOut => match above {
-                        true => 0.0,
+                        true => rebate,
                         false => payoff,
                     },
                     BarrierType::DownAndOut => match below {
-                        true => 0.0,
+                        true => rebate,
                         false => payoff,
                     },
                     BarrierType::UpAndIn => match above {
                         true => payoff,
-                        false => 0.0,
+                        false => rebate,
                     },
                     BarrierType::DownAndIn => match below {
                         true => payoff,
-                        false => 0.0,
+                        false => rebate,
                     },
                 }
             }
@@ -71,20 +72,20 @@ impl Payoff for BarrierOption {
 
                 match self.barrier_type {
                     BarrierType::UpAndOut => match above {
-                        true => 0.0,
+                        true => rebate,
                         false => payoff,
                     },
                     BarrierType::DownAndOut => match below {
-                        true => 0.0,
+                        true => rebate,
                         false => payoff,
                     },
                     BarrierType::UpAndIn => match above {
                         true => payoff,
-                        false => 0.0,
+                        false => rebate,
                     },
                     BarrierType::DownAndIn => match below {
                         true => payoff,
-                        false => 0.0,
+                        false => rebate,
                     },
                 }
             }
-- 
2.43.0


From 5262f93e2023cc18121d1bec6d5ceea624172702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:49 +0000
Subject: [PATCH 48/94] fix: Bachelier implied volatility inverts the price

---
 .../src/options/option_models.rs              | 20 ++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/crates/RustQuant_instruments/src/options/option_models.rs b/crates/RustQuant_instruments/src/options/option_models.rs
index 1e2a6e5..e506204 100644
--- a/crates/RustQuant_instruments/src/options/option_models.rs
+++ b/crates/RustQuant_instruments/src/options/option_models.rs
@@ -1065,10 +1065,20 @@ mod bachelier {
         1.174_240_599_306_01e+1,
     ];
 
+    // v / atanh(v), which tends to one at the money.
+    #[inline]
+    fn eta(v: f64) -> f64 {
+        if v == 0.0 {
+            1.0
+        } else {
+            v / v.atanh()
+        }
+    }
+
     #[inline]
     pub(crate) fn call_iv(price: f64, f: f64, k: f64, t: f64) -> f64 {
         let v = (f - k).abs() / (2. * price - (f - k));
-        let eta = v / v.atanh();
+        let eta = eta(v);
 
         let mut sum1 = 0.0;
         let mut sum2 = 0.0;
@@ -1080,7 +1090,7 @@ mod bachelier {
 
         // for k in 0..B.len() {
         for (k, v) in B.iter().enumerate() {
-            sum2 += v * eta.powi(k as i32);
+            sum2 += v * eta.powi(k as i32 + 1);
         }
 
         let hn = eta.sqrt() * sum1 / (1. + sum2);
@@ -1091,7 +1101,7 @@ mod bachelier {
     #[inline]
     pub(crate) fn put_iv(price: f64, f: f64, k: f64, t: f64) -> f64 {
         let v = (f - k).abs() / (2. * price + (f - k));
-        let eta = v / v.atanh();
+        let eta = eta(v);
 
         let mut sum1 = 0.0;
         let mut sum2 = 0.0;
@@ -1102,8 +1112,8 @@ mod bachelier {
         }
 
         // for k in 1..=B.len() {
-        for (k, v) in B.iter().enumerate().skip(1) {
-            sum2 += v * eta.powi(k as i32);
+        for (k, v) in B.iter().enumerate() {
+            sum2 += v * eta.powi(k as i32 + 1);
         }
 
         let hn = eta.sqrt() * sum1 / (1. + sum2);
-- 
2.43.0


From c6df6616aa40f41f08fc584fe499448125bf1d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:49 +0000
Subject: [PATCH 49/94] fix: SABR volatility is Hagan's formula, also at the
 money

---
 .../src/options/option_models.rs              | 26 +++++++++++--------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/crates/RustQuant_instruments/src/options/option_models.rs b/crates/RustQuant_instruments/src/options/option_models.rs
index e506204..ef9b0ec 100644
--- a/crates/RustQuant_instruments/src/options/option_models.rs
+++ b/crates/RustQuant_instruments/src/options/option_models.rs
@@ -1242,12 +1242,19 @@ mod sabr {
         rho: f64,
         nu: f64,
     ) -> f64 {
-        coefficient(f, k, beta, rho, nu) * numerator(f, k, t, alpha, beta, rho, nu)
+        coefficient(f, k, alpha, beta, rho, nu) * numerator(f, k, t, alpha, beta, rho, nu)
             / denominator(f, k, beta, rho, nu)
     }
 
-    fn coefficient(f: f64, k: f64, beta: f64, rho: f64, _nu: f64) -> f64 {
-        z(f, k, beta) / chi(f, k, beta, rho)
+    fn coefficient(f: f64, k: f64, alpha: f64, beta: f64, rho: f64, nu: f64) -> f64 {
+        let z = z(f, k, alpha, beta, nu);
+
+        // z / chi(z), whose limit at the money is one.
+        if z.abs() < 1e-6 {
+            1.0 - 0.5 * rho * z
+        } else {
+            z / chi(z, rho)
+        }
     }
 
     fn numerator(f: f64, k: f64, t: f64, alpha: f64, beta: f64, rho: f64, nu: f64) -> f64 {
@@ -1264,17 +1271,14 @@ mod sabr {
         term1 * (1.0 + term2 + term3)
     }
 
-    fn z(f: f64, k: f64, beta: f64) -> f64 {
-        (f / k).ln() * fk_power(f, k, beta)
+    fn z(f: f64, k: f64, alpha: f64, beta: f64, nu: f64) -> f64 {
+        nu / alpha * (f / k).ln() * fk_power(f, k, beta)
     }
 
-    fn chi(f: f64, k: f64, beta: f64, rho: f64) -> f64 {
-        let numerator = ((1.0 - 2.0 * rho * z(f, k, beta) + z(f, k, beta).powi(2)).sqrt()
-            + z(f, k, beta)
-            - rho)
-            .ln();
+    fn chi(z: f64, rho: f64) -> f64 {
+        let numerator = (1.0 - 2.0 * rho * z + z.powi(2)).sqrt() + z - rho;
         let denominator = 1.0 - rho;
-        numerator / denominator
+        (numerator / denominator).ln()
     }
 
     fn fk_power(f: f64, k: f64, beta: f64) -> f64 {
-- 
2.43.0


From b0f374b61ff02d8b53f5a917ba81b82f1a2c1a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:49 +0000
Subject: [PATCH 50/94] fix: Heston prices no longer cross the branch cut of
 the complex logarithm

---
 crates/RustQuant_instruments/src/options/option_models.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/RustQuant_instruments/src/options/option_models.rs b/crates/RustQuant_instruments/src/options/option_models.rs
index ef9b0ec..436fc3b 100644
--- a/crates/RustQuant_instruments/src/options/option_models.rs
+++ b/crates/RustQuant_instruments/src/options/option_models.rs
@@ -772,7 +772,9 @@ mod heston {
         };
 
         let d = |j: Switch, phi: f64| -> Complex<f64> {
-            ((rho * sigma * i * phi - b(j)).powi(2)
+            // The negative root keeps the logarithm in C on its principal branch
+            // (Albrecher et al., 2007).
+            -((rho * sigma * i * phi - b(j)).powi(2)
                 - sigma.powi(2) * (2.0 * u(j) * i * phi - phi.powi(2)))
             .sqrt()
         };
@@ -894,7 +896,9 @@ mod heston {
         };
 
         let d = |j: Switch, phi: f64| -> Complex<f64> {
-            ((rho * sigma * i * phi - b(j)).powi(2)
+            // The negative root keeps the logarithm in C on its principal branch
+            // (Albrecher et al., 2007).
+            -((rho * sigma * i * phi - b(j)).powi(2)
                 - sigma.powi(2) * (2.0 * u(j) * i * phi - phi.powi(2)))
             .sqrt()
         };
-- 
2.43.0


From b4d371596c1388c64f78c70f7abf168fe3f0a6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:49 +0000
Subject: [PATCH 51/94] fix: finite differences allow early exercise in the
 exercise window or on the exercise dates

---
 .../src/options/finite_difference_pricer.rs   | 40 ++++++++++++-------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/crates/RustQuant_instruments/src/options/finite_difference_pricer.rs b/crates/RustQuant_instruments/src/options/finite_difference_pricer.rs
index fdd6f14..2ca4ff7 100644
--- a/crates/RustQuant_instruments/src/options/finite_difference_pricer.rs
+++ b/crates/RustQuant_instruments/src/options/finite_difference_pricer.rs
@@ -221,6 +221,28 @@ impl FiniteDifferencePricer {
         )
     }
 
+    /// Whether the option may be exercised at the step which lies `time` after the evaluation date.
+    fn exercisable(&self, time: f64, delta_t: f64) -> bool {
+        const EPS: f64 = 1e-9;
+
+        let time_of = |date: &Date| -> f64 {
+            DayCountConvention::Actual_365_25
+                .day_count_factor(self.evaluation_date.unwrap_or(today()), *date)
+        };
+
+        match &self.exercise_flag {
+            ExerciseFlag::European { .. } => false,
+            ExerciseFlag::American { start, end } => {
+                time >= time_of(start) - EPS && time <= time_of(end) + EPS
+            }
+            // An exercise date falls on the last step that is not after it.
+            ExerciseFlag::Bermudan { exercise_dates } => exercise_dates
+                .iter()
+                .map(time_of)
+                .any(|date| time <= date + EPS && date < time + delta_t - EPS),
+        }
+    }
+
     fn return_price(&self, u: Vec<f64>) -> f64 {
         match self.price_steps % 2 {
             0 => u[((self.price_steps - 1) / 2) as usize],
@@ -275,11 +297,7 @@ impl FiniteDifferencePricer {
                 }
             }
 
-            if let ExerciseFlag::American {
-                start: Date::MIN,
-                end: Date::MAX,
-            } = self.exercise_flag
-            {
+            if self.exercisable(T - (t as f64) * delta_t, delta_t) {
                 v = self.american_time_stop_step(v, (t as f64) * delta_t, x_min, delta_x);
             }
         }
@@ -313,11 +331,7 @@ impl FiniteDifferencePricer {
 
             v = self.general_matrix_multiply_vector(&inverse_matrix, v);
 
-            if let ExerciseFlag::American {
-                start: Date::MIN,
-                end: Date::MAX,
-            } = self.exercise_flag
-            {
+            if self.exercisable(T - (t as f64) * delta_t, delta_t) {
                 v = self.american_time_stop_step(v, (t as f64) * delta_t, x_min, delta_x);
             }
         }
@@ -357,11 +371,7 @@ impl FiniteDifferencePricer {
 
             v = self.general_matrix_multiply_vector(&inverse_future_matrix, v);
 
-            if let ExerciseFlag::American {
-                start: Date::MIN,
-                end: Date::MAX,
-            } = self.exercise_flag
-            {
+            if self.exercisable(T - (t as f64) * delta_t, delta_t) {
                 v = self.american_time_stop_step(v, (t as f64) * delta_t, x_min, delta_x);
             }
         }
-- 
2.43.0


From 4dde30a022db8da3c3c4a86c79a61421ee8fa9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:49 +0000
Subject: [PATCH 52/94] fix: Longstaff-Schwartz discounts the first time step

---
 crates/RustQuant_instruments/src/options/longstaff_schwartz.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_instruments/src/options/longstaff_schwartz.rs b/crates/RustQuant_instruments/src/options/longstaff_schwartz.rs
index a09ed89..1077135 100644
--- a/crates/RustQuant_instruments/src/options/longstaff_schwartz.rs
+++ b/crates/RustQuant_instruments/src/options/longstaff_schwartz.rs
@@ -136,7 +136,7 @@ impl LongstaffScwhartzPricer {
                 }
             }
         }
-        payoffs.iter().sum::<f64>() / self.num_simulations as f64
+        self.discount(delta_t) * payoffs.iter().sum::<f64>() / self.num_simulations as f64
     }
 
     fn create_laguerre_matrix(&self, in_the_money_assets: &[f64]) -> DMatrix<f64> {
-- 
2.43.0


From ac13c2c2defe798b9697de19d720443f70e8e306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:17 +0000
Subject: [PATCH 53/94] fix: Milstein scheme scales the noise with the step and
 divides by the bump

---
 crates/RustQuant_stochastics/src/simulation.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/RustQuant_stochastics/src/simulation.rs b/crates/RustQuant_stochastics/src/simulation.rs
index 420b356..b9249d6 100644
--- a/crates/RustQuant_stochastics/src/simulation.rs
+++ b/crates/RustQuant_stochastics/src/simulation.rs
@@ -83,7 +83,7 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
                 let mut dw: f64;
                 for t in 0..config.n_steps {
                     dw = match noise_gen {
-                        NoiseGenerator::Dynamic(ref mut rng) => normal_dist.sample(rng),
+                        NoiseGenerator::Dynamic(ref mut rng) => diffusion_scale * normal_dist.sample(rng),
                         NoiseGenerator::Fractional(_) => fraction_noise[t],
                     };
                     path.push(
@@ -94,8 +94,7 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
                         * (stochastic_process.diffusion(path[t], times_ref[t])
                         * ((stochastic_process.diffusion(path[t] + 1e-5, times_ref[t])
                                     - stochastic_process.diffusion(path[t] - 1e-5, times_ref[t]))
-                                    / 2.0
-                                    * 1e-5)
+                                    / 2e-5)
                         * ((dw * dw) - dt))
                         + match !jumps.is_empty() {
                             true => calculate_jump(stochastic_process, path[t], times_ref[t], jumps[t]),
-- 
2.43.0


From f0dd6d8751bf22884143a73bb2b1ed7a9242aa29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:17 +0000
Subject: [PATCH 54/94] fix: Strang splitting scales the noise with the step
 and starts each part where the last ended

---
 .../RustQuant_stochastics/src/simulation.rs   | 21 +++++++++++--------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/crates/RustQuant_stochastics/src/simulation.rs b/crates/RustQuant_stochastics/src/simulation.rs
index b9249d6..c1f0b98 100644
--- a/crates/RustQuant_stochastics/src/simulation.rs
+++ b/crates/RustQuant_stochastics/src/simulation.rs
@@ -116,16 +116,19 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
                 };
 
                 for t in 0..config.n_steps {
+                    let dw = match noise_gen {
+                        NoiseGenerator::Dynamic(ref mut rng) => diffusion_scale * normal_dist.sample(rng),
+                        NoiseGenerator::Fractional(_) => fraction_noise[t],
+                    };
+                    // Half a step of drift, a full step of diffusion, half a step of drift,
+                    // each from where the one before ended.
+                    let mid = times_ref[t] + 0.5 * dt;
+                    let half = path[t] + 0.5 * stochastic_process.drift(path[t], times_ref[t]) * dt;
+                    let full = half + stochastic_process.diffusion(half, mid) * dw;
+
                     path.push(
-                        path[t]
-                        + 0.5 * stochastic_process.drift(path[t], times_ref[t]) * dt
-                        + stochastic_process.diffusion(
-                            path[t] + 0.5 * stochastic_process.drift(path[t], times[t]) * dt,
-                            times[t] + 0.5 * dt,
-                        ) * match noise_gen {
-                            NoiseGenerator::Dynamic(ref mut rng) => normal_dist.sample(rng),
-                            NoiseGenerator::Fractional(_) => fraction_noise[t],
-                        } + 0.5 * stochastic_process.drift(path[t], times_ref[t]) * dt
+                        full
+                        + 0.5 * stochastic_process.drift(full, mid) * dt
                         + match !jumps.is_empty() {
                             true => calculate_jump(stochastic_process, path[t], times_ref[t], jumps[t]),
                             false => 0.0,
-- 
2.43.0


From 05dba3392511d2142421feaccb3a64fbee1438a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:17 +0000
Subject: [PATCH 55/94] fix: fractional noise is scaled once, spans the
 simulated interval and differs between paths

---
 .../src/fractional_process.rs                 |  9 ++-
 .../RustQuant_stochastics/src/simulation.rs   | 58 ++++++++-----------
 2 files changed, 31 insertions(+), 36 deletions(-)

diff --git a/crates/RustQuant_stochastics/src/fractional_process.rs b/crates/RustQuant_stochastics/src/fractional_process.rs
index 3b2e3a0..1ba4ea2 100644
--- a/crates/RustQuant_stochastics/src/fractional_process.rs
+++ b/crates/RustQuant_stochastics/src/fractional_process.rs
@@ -95,7 +95,7 @@ pub fn fgn_cholesky(hurst: f64, n: usize, t_n: f64, seed: Option<u64>) -> Vec<f6
 }
 
 /// Fractional Gaussian noise via FFT.
-pub fn fgn_fft(hurst: f64, n: usize, t_n: f64, _: Option<u64>) -> Vec<f64> {
+pub fn fgn_fft(hurst: f64, n: usize, t_n: f64, seed: Option<u64>) -> Vec<f64> {
     if !(0.0..=1.0).contains(&hurst) {
         panic!("Hurst parameter must be between 0 and 1");
     }
@@ -125,9 +125,14 @@ pub fn fgn_fft(hurst: f64, n: usize, t_n: f64, _: Option<u64>) -> Vec<f64> {
 
     sqrt_eigenvalues.par_mapv_inplace(|x| Complex::new((x.re / (2.0 * n as f64)).sqrt(), x.im));
 
-    let rnd = Array1::<Complex<f64>>::random(
+    let mut rng = match seed {
+        Some(seed) => StdRng::seed_from_u64(seed),
+        None => StdRng::from_entropy()
+    };
+    let rnd = Array1::<Complex<f64>>::random_using(
         2 * n,
         ComplexDistribution::new(StandardNormal, StandardNormal),
+        &mut rng,
     );
     let fgn = &sqrt_eigenvalues * &rnd;
     let fft_handler = FftHandler::new(2 * n);
diff --git a/crates/RustQuant_stochastics/src/simulation.rs b/crates/RustQuant_stochastics/src/simulation.rs
index c1f0b98..3c3e078 100644
--- a/crates/RustQuant_stochastics/src/simulation.rs
+++ b/crates/RustQuant_stochastics/src/simulation.rs
@@ -16,7 +16,7 @@ use RustQuant_math::{Distribution as LocalDistribution, Poisson};
 
 enum NoiseGenerator {
     Dynamic(StdRng),
-    Fractional((fn(f64, usize, f64, Option<u64>) -> Vec<f64>, f64)),
+    Fractional(Vec<f64>),
 }
 
 pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
@@ -48,20 +48,14 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
         StochasticScheme::EulerMaruyama => Box::new({
             |path: &mut Vec<f64>, mut noise_gen: NoiseGenerator| {
 
-                let fraction_noise: Vec<f64> = match noise_gen {
-                    NoiseGenerator::Fractional(fractional_config) => {
-                        fractional_config.0(fractional_config.1, config.n_steps, config.t_n, config.seed)
-                    },
-                    NoiseGenerator::Dynamic(_) => vec![],
-                };
 
                 for t in 0..config.n_steps {                    
                     path.push(
                         path[t]
                         + stochastic_process.drift(path[t], times_ref[t]) * dt
-                        + stochastic_process.diffusion(path[t], times_ref[t]) * diffusion_scale * match noise_gen {
-                            NoiseGenerator::Dynamic(ref mut rng) => normal_dist.sample(rng),
-                            NoiseGenerator::Fractional(_) => fraction_noise[t],
+                        + stochastic_process.diffusion(path[t], times_ref[t]) * match noise_gen {
+                            NoiseGenerator::Dynamic(ref mut rng) => diffusion_scale * normal_dist.sample(rng),
+                            NoiseGenerator::Fractional(ref noise) => noise[t],
                         } + match !jumps.is_empty() {
                             true => calculate_jump(stochastic_process, path[t], times_ref[t], jumps[t]),
                             false => 0.0,
@@ -73,18 +67,12 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
         StochasticScheme::Milstein => Box::new({
             |path: &mut Vec<f64>, mut noise_gen: NoiseGenerator| {
 
-                let fraction_noise: Vec<f64> = match noise_gen {
-                    NoiseGenerator::Fractional(fractional_config) => {
-                        fractional_config.0(fractional_config.1, config.n_steps, config.t_n, config.seed)
-                    },
-                    NoiseGenerator::Dynamic(_) => vec![],
-                };
 
                 let mut dw: f64;
                 for t in 0..config.n_steps {
                     dw = match noise_gen {
                         NoiseGenerator::Dynamic(ref mut rng) => diffusion_scale * normal_dist.sample(rng),
-                        NoiseGenerator::Fractional(_) => fraction_noise[t],
+                        NoiseGenerator::Fractional(ref noise) => noise[t],
                     };
                     path.push(
                         path[t]
@@ -108,17 +96,11 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
             |path: &mut Vec<f64>, mut noise_gen: NoiseGenerator| {
 
 
-                let fraction_noise: Vec<f64> = match noise_gen {
-                    NoiseGenerator::Fractional(fractional_config) => {
-                        fractional_config.0(fractional_config.1, config.n_steps, config.t_n, config.seed)
-                    },
-                    NoiseGenerator::Dynamic(_) => vec![],
-                };
 
                 for t in 0..config.n_steps {
                     let dw = match noise_gen {
                         NoiseGenerator::Dynamic(ref mut rng) => diffusion_scale * normal_dist.sample(rng),
-                        NoiseGenerator::Fractional(_) => fraction_noise[t],
+                        NoiseGenerator::Fractional(ref noise) => noise[t],
                     };
                     // Half a step of drift, a full step of diffusion, half a step of drift,
                     // each from where the one before ended.
@@ -142,21 +124,29 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
     let mut paths: Vec<Vec<f64>> = vec![vec![config.x_0]; config.m_paths];
 
     let base_seed: u64 = config.seed.unwrap_or_else(rand::random);
+    // Every path has noise of its own, which depends on the seed and the path's index only.
+    // Fractional noise is already scaled to the length of a step.
+    let noise_generator = |i: usize| -> NoiseGenerator {
+        let seed = base_seed.wrapping_add(i as u64);
+
+        match fractional_config {
+            Some((fgn, hurst)) => NoiseGenerator::Fractional(fgn(
+                hurst,
+                config.n_steps,
+                config.t_n - config.t_0,
+                Some(seed),
+            )),
+            None => NoiseGenerator::Dynamic(StdRng::seed_from_u64(seed)),
+        }
+    };
+
     if config.parallel {
         paths.par_iter_mut().enumerate().for_each(|(i, path)| {
-            let noise_gen = match fractional_config {
-                Some(fractional_config) => NoiseGenerator::Fractional(fractional_config),
-                None => NoiseGenerator::Dynamic(StdRng::seed_from_u64(base_seed.wrapping_add(i as u64))),
-            };
-            scheme(path, noise_gen);
+            scheme(path, noise_generator(i));
         });
     } else {
         paths.iter_mut().enumerate().for_each(|(i, path)| {
-            let noise_gen = match fractional_config {
-                Some(fractional_config) => NoiseGenerator::Fractional(fractional_config),
-                None => NoiseGenerator::Dynamic(StdRng::seed_from_u64(base_seed.wrapping_add(i as u64))),
-            };
-            scheme(path, noise_gen);
+            scheme(path, noise_generator(i));
         });
     }
 
-- 
2.43.0


From f63c0bab9a94e45085155ad4eab28edb40507424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:17 +0000
Subject: [PATCH 56/94] fix: every path has jump times of its own, reproducible
 from the seed

---
 .../RustQuant_stochastics/src/simulation.rs   | 34 ++++++++++---------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/crates/RustQuant_stochastics/src/simulation.rs b/crates/RustQuant_stochastics/src/simulation.rs
index 3c3e078..9b899ff 100644
--- a/crates/RustQuant_stochastics/src/simulation.rs
+++ b/crates/RustQuant_stochastics/src/simulation.rs
@@ -11,7 +11,6 @@ use rayon::prelude::*;
 use rand::prelude::Distribution;
 use rand::{rngs::StdRng, SeedableRng};
 use crate::process::{StochasticProcess, Trajectories, StochasticProcessConfig, StochasticScheme};
-use RustQuant_math::{Distribution as LocalDistribution, Poisson};
 
 
 enum NoiseGenerator {
@@ -37,12 +36,9 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
     let normal_dist: rand_distr::Normal<f64> = rand_distr::Normal::new(0.0, 1.0).unwrap();
     let diffusion_scale: f64 = dt.sqrt();
 
-    let jumps: &[f64] = match jump_config {
-        Some(lambda) => {
-            &Poisson::new(lambda * dt).sample(config.n_steps).unwrap()
-        }
-        None => &vec![],
-    };
+    let jump_dist: Option<rand_distr::Poisson<f64>> = jump_config
+        .filter(|lambda| *lambda != 0.0)
+        .map(|lambda| rand_distr::Poisson::new(lambda * dt).unwrap());
 
     let scheme = match config.scheme {
         StochasticScheme::EulerMaruyama => Box::new({
@@ -56,9 +52,11 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
                         + stochastic_process.diffusion(path[t], times_ref[t]) * match noise_gen {
                             NoiseGenerator::Dynamic(ref mut rng) => diffusion_scale * normal_dist.sample(rng),
                             NoiseGenerator::Fractional(ref noise) => noise[t],
-                        } + match !jumps.is_empty() {
-                            true => calculate_jump(stochastic_process, path[t], times_ref[t], jumps[t]),
-                            false => 0.0,
+                        } + match (&jump_dist, &mut noise_gen) {
+                            (Some(jump_dist), NoiseGenerator::Dynamic(rng)) => {
+                                calculate_jump(stochastic_process, path[t], times_ref[t], jump_dist.sample(rng))
+                            }
+                            _ => 0.0,
                         }
                     );
                 }
@@ -84,9 +82,11 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
                                     - stochastic_process.diffusion(path[t] - 1e-5, times_ref[t]))
                                     / 2e-5)
                         * ((dw * dw) - dt))
-                        + match !jumps.is_empty() {
-                            true => calculate_jump(stochastic_process, path[t], times_ref[t], jumps[t]),
-                            false => 0.0,
+                        + match (&jump_dist, &mut noise_gen) {
+                            (Some(jump_dist), NoiseGenerator::Dynamic(rng)) => {
+                                calculate_jump(stochastic_process, path[t], times_ref[t], jump_dist.sample(rng))
+                            }
+                            _ => 0.0,
                         }
                     );
                 }
@@ -111,9 +111,11 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
                     path.push(
                         full
                         + 0.5 * stochastic_process.drift(full, mid) * dt
-                        + match !jumps.is_empty() {
-                            true => calculate_jump(stochastic_process, path[t], times_ref[t], jumps[t]),
-                            false => 0.0,
+                        + match (&jump_dist, &mut noise_gen) {
+                            (Some(jump_dist), NoiseGenerator::Dynamic(rng)) => {
+                                calculate_jump(stochastic_process, path[t], times_ref[t], jump_dist.sample(rng))
+                            }
+                            _ => 0.0,
                         }
                     );
                 }
-- 
2.43.0


From c651685b59212dc904b76fbfc2b91f021b0a5abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:56 +0000
Subject: [PATCH 57/94] fix: curve queries interpolate the current nodes after
 set_rate and shift

---
 crates/RustQuant_data/src/curves.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/crates/RustQuant_data/src/curves.rs b/crates/RustQuant_data/src/curves.rs
index bea485b..c67d437 100644
--- a/crates/RustQuant_data/src/curves.rs
+++ b/crates/RustQuant_data/src/curves.rs
@@ -207,6 +207,7 @@ impl Curve {
     /// Set a rate in the curve.
     pub fn set_rate(&mut self, date: Date, rate: f64) {
         self.nodes.insert(date, rate);
+        self.refresh_interpolator();
     }
 
     /// Set multiple rates in the curve.
@@ -279,6 +280,7 @@ impl Curve {
         for value in self.nodes.values_mut() {
             *value += shift;
         }
+        self.refresh_interpolator();
     }
 
     /// Plot the curve.
@@ -340,6 +342,19 @@ impl CostFunction for Curve {
 }
 
 impl Curve {
+    /// Rebuild the interpolator from the current nodes.
+    fn refresh_interpolator(&mut self) {
+        let curve = Self::from_nodes(
+            self.nodes.clone(),
+            self.curve_type,
+            self.interpolation_method,
+        );
+
+        if let Ok(curve) = curve {
+            self.interpolator = curve.interpolator;
+        }
+    }
+
     /// Fit a Nelson-Siegel-Svensson curve to the data.
     fn fit_nss(&mut self) -> Result<(), argmin::core::Error> {
         const CURVE_OPTIM_MAX_ITER: u64 = 69;
-- 
2.43.0


From a21c1c71dd7cfb5bbf7d845664a92dce8fe4c4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:56 +0000
Subject: [PATCH 58/94] fix: querying a curve without nodes returns None

---
 crates/RustQuant_data/src/curves.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/RustQuant_data/src/curves.rs b/crates/RustQuant_data/src/curves.rs
index c67d437..896c772 100644
--- a/crates/RustQuant_data/src/curves.rs
+++ b/crates/RustQuant_data/src/curves.rs
@@ -175,6 +175,7 @@ impl Curve {
     pub fn get_rate(&self, date: Date) -> Option<f64> {
         match self.nodes.get(&date) {
             Some(rate) => Some(*rate),
+            None if self.nodes.is_empty() => None,
             None => self.interpolator.interpolate(date).ok(),
         }
     }
@@ -184,7 +185,7 @@ impl Curve {
         match self.nodes.get(&date) {
             Some(rate) => Some(*rate),
             None => {
-                let rate = self.interpolator.interpolate(date).ok()?;
+                let rate = self.get_rate(date)?;
                 self.nodes.insert(date, rate);
                 Some(rate)
             }
-- 
2.43.0


From 0ad501e93d32b97f4fae9a9e62e351b16092989e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:56 +0000
Subject: [PATCH 59/94] fix: SimpleQuote::set_value stores empty and zero
 values

---
 crates/RustQuant_cashflows/src/quotes.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/crates/RustQuant_cashflows/src/quotes.rs b/crates/RustQuant_cashflows/src/quotes.rs
index 7bc6894..9d8544c 100644
--- a/crates/RustQuant_cashflows/src/quotes.rs
+++ b/crates/RustQuant_cashflows/src/quotes.rs
@@ -54,11 +54,12 @@ impl SimpleQuote {
             _ => 0.0,
         };
 
-        if diff != 0.0 {
-            self.value = value;
-            // Assuming notify_observers() function exists and does what it's supposed to
-            // self.notify_observers();
-        }
+        self.value = value;
+
+        // if diff != 0.0 {
+        //     Assuming notify_observers() function exists and does what it's supposed to
+        //     self.notify_observers();
+        // }
 
         diff
     }
-- 
2.43.0


From e9c390b09c73ad80b32193bbbe50bfda7a3cd5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:56 +0000
Subject: [PATCH 60/94] fix: Gaussian activation of numbers is exp(-x^2)

---
 crates/RustQuant_ml/src/activations.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_ml/src/activations.rs b/crates/RustQuant_ml/src/activations.rs
index 9b3d8da..65aaa24 100644
--- a/crates/RustQuant_ml/src/activations.rs
+++ b/crates/RustQuant_ml/src/activations.rs
@@ -127,7 +127,7 @@ impl ActivationFunction for f64 {
 
     #[inline]
     fn gaussian(&self) -> Self {
-        (f64::powi(-self, 2)).exp()
+        (-f64::powi(*self, 2)).exp()
     }
 }
 
-- 
2.43.0


From e801eb951ccd688c555ec669364bb4bf30d56552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:56 +0000
Subject: [PATCH 61/94] fix: softplus of numbers neither overflows nor loses
 small values

---
 crates/RustQuant_ml/src/activations.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_ml/src/activations.rs b/crates/RustQuant_ml/src/activations.rs
index 65aaa24..08da782 100644
--- a/crates/RustQuant_ml/src/activations.rs
+++ b/crates/RustQuant_ml/src/activations.rs
@@ -122,7 +122,7 @@ impl ActivationFunction for f64 {
 
     #[inline]
     fn softplus(&self) -> Self {
-        (1.0 + self.exp()).ln()
+        self.max(0.0) + (-self.abs()).exp().ln_1p()
     }
 
     #[inline]
-- 
2.43.0


From f0b2e5df1e3322984ff84fb25d95a108a7c37fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:56 +0000
Subject: [PATCH 62/94] fix: logistic regression rejects responses other than 0
 and 1

---
 crates/RustQuant_ml/src/logistic_regression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_ml/src/logistic_regression.rs b/crates/RustQuant_ml/src/logistic_regression.rs
index e4ba950..e456f6d 100644
--- a/crates/RustQuant_ml/src/logistic_regression.rs
+++ b/crates/RustQuant_ml/src/logistic_regression.rs
@@ -93,7 +93,7 @@ impl LogisticRegressionInput<f64> {
         if self
             .y
             .iter()
-            .any(|&x| x.abs() < f64::EPSILON && (x - 1.0).abs() < f64::EPSILON)
+            .any(|&x| x.abs() >= f64::EPSILON && (x - 1.0).abs() >= f64::EPSILON)
         {
             return Err("The elements of the response vector should be either 0 or 1.");
         }
-- 
2.43.0


From 7b016a5f093428d1be28363ca23f99ca83329c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:56 +0000
Subject: [PATCH 63/94] fix: logistic regression stops on separable data only
 when both classes are fitted

---
 crates/RustQuant_ml/src/logistic_regression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_ml/src/logistic_regression.rs b/crates/RustQuant_ml/src/logistic_regression.rs
index e456f6d..0ab7947 100644
--- a/crates/RustQuant_ml/src/logistic_regression.rs
+++ b/crates/RustQuant_ml/src/logistic_regression.rs
@@ -201,7 +201,7 @@ impl LogisticRegressionInput<f64> {
                     let diag_entries = &mu.component_mul(&(&ones_samples - &mu));
 
                     // Break if data turns out to be linearly separable.
-                    if (&y - &mu).max() < tolerance {
+                    if (&y - &mu).amax() < tolerance {
                         break;
                     }
 
-- 
2.43.0


From 3dbf4195549478cd83fea37135d19a349aa5b4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:56 +0000
Subject: [PATCH 64/94] fix: logistic regression iterates even when its initial
 guess is zero

---
 crates/RustQuant_ml/src/logistic_regression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_ml/src/logistic_regression.rs b/crates/RustQuant_ml/src/logistic_regression.rs
index 0ab7947..ec7cb07 100644
--- a/crates/RustQuant_ml/src/logistic_regression.rs
+++ b/crates/RustQuant_ml/src/logistic_regression.rs
@@ -173,7 +173,7 @@ impl LogisticRegressionInput<f64> {
         let ones_features = DVector::from_element(n_cols, 1.);
 
         // Vector of coefficients that we update each iteration.
-        let mut coefs = DVector::zeros(n_cols);
+        let mut coefs = DVector::from_element(n_cols, f64::INFINITY);
 
         match method {
             // MAXIMUM LIKELIHOOD ESTIMATION
-- 
2.43.0


From fa3db4afd93192d39f83047fc709af0137437a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:56 +0000
Subject: [PATCH 65/94] fix: score_cross_entropy is the (non-negative)
 cross-entropy, also of certain predictions

---
 crates/RustQuant_ml/src/logistic_regression.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/RustQuant_ml/src/logistic_regression.rs b/crates/RustQuant_ml/src/logistic_regression.rs
index ec7cb07..9134871 100644
--- a/crates/RustQuant_ml/src/logistic_regression.rs
+++ b/crates/RustQuant_ml/src/logistic_regression.rs
@@ -277,8 +277,9 @@ impl LogisticRegressionOutput<f64> {
         let log_p = p_hat.map(f64::ln);
         let log_p_complement = p_complement.map(f64::ln);
 
-        // Cross-entropy
-        (y.component_mul(&log_p) + y_complement.component_mul(&log_p_complement)).mean()
+        // Cross-entropy (an outcome that did not occur contributes nothing).
+        let term = |y: f64, log_p: f64| if y == 0.0 { 0.0 } else { -y * log_p };
+        (y.zip_map(&log_p, term) + y_complement.zip_map(&log_p_complement, term)).mean()
     }
 }
 
-- 
2.43.0


From 4af555123ffee682f0698066c63705bec021524e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:56 +0000
Subject: [PATCH 66/94] fix: nearest-neighbour votes of labels with equal
 integer part are counted separately

---
 crates/RustQuant_ml/src/k_nearest_neighbors.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_ml/src/k_nearest_neighbors.rs b/crates/RustQuant_ml/src/k_nearest_neighbors.rs
index 8cb4420..d00a0d5 100644
--- a/crates/RustQuant_ml/src/k_nearest_neighbors.rs
+++ b/crates/RustQuant_ml/src/k_nearest_neighbors.rs
@@ -85,7 +85,7 @@ impl KNearestClassifier<f64> {
             .iter()
             .copied()
             .max_by_key(|&val| {
-                let count = counts.entry(val as i64).or_insert(0);
+                let count = counts.entry((val + 0.0).to_bits()).or_insert(0);
                 *count += 1;
                 *count
             })
-- 
2.43.0


From b3b9fc324c31a4ea59177a25416e12147c2d712a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:56 +0000
Subject: [PATCH 67/94] fix: SVD regression of collinear features uses the
 pseudo-inverse

---
 crates/RustQuant_ml/src/linear_regression.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/RustQuant_ml/src/linear_regression.rs b/crates/RustQuant_ml/src/linear_regression.rs
index d332e56..95a0c3f 100644
--- a/crates/RustQuant_ml/src/linear_regression.rs
+++ b/crates/RustQuant_ml/src/linear_regression.rs
@@ -130,12 +130,21 @@ impl LinearRegressionInput<f64> {
                 })
             }
             Decomposition::SVD => {
+                let n_max = x.nrows().max(x.ncols());
                 let svd = x.svd(true, true);
                 let v = svd
                     .v_t
                     .ok_or(RustQuantError::SvdDecompositionFailed)?
                     .transpose();
-                let s_inv = DMatrix::from_diagonal(&svd.singular_values.map(|x| 1.0 / x));
+                // Singular values that are zero up to rounding have no inverse.
+                let cutoff = svd.singular_values.max() * n_max as f64 * f64::EPSILON;
+                let s_inv = DMatrix::from_diagonal(&svd.singular_values.map(|x| {
+                    if x > cutoff {
+                        1.0 / x
+                    } else {
+                        0.0
+                    }
+                }));
                 let u = svd.u.ok_or(RustQuantError::SvdDecompositionFailedOnU)?;
 
                 let pseudo_inverse = v * s_inv * u.transpose();
-- 
2.43.0


From 243c4c56294019259298b2025e0ad0952e9812a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:01 +0000
Subject: [PATCH 68/94] fix: logistic regression starts from even odds, not
 from a guess it often diverges from

---
 .../RustQuant_ml/src/logistic_regression.rs   | 30 ++-----------------
 1 file changed, 2 insertions(+), 28 deletions(-)

diff --git a/crates/RustQuant_ml/src/logistic_regression.rs b/crates/RustQuant_ml/src/logistic_regression.rs
index 9134871..9870680 100644
--- a/crates/RustQuant_ml/src/logistic_regression.rs
+++ b/crates/RustQuant_ml/src/logistic_regression.rs
@@ -119,38 +119,12 @@ impl LogisticRegressionInput<f64> {
 
     /// Function to validate and prepare the output data.
     fn prepare_output(&self) -> LogisticRegressionOutput<f64> {
-        // Initial guess for the coefficients.
-        // hyperplane orthogonal to line between  means of class 0 and 1; plane goes through the location of (weighted) mean of both clusters
-
+        // Initial guess for the coefficients: even odds for every sample.
         let (_n_sample, n_feat) = self.x.shape();
-        let ones = DVector::from_element(n_feat, 1.).transpose();
-
-        // Calculate mean of features of samples of class 0
-        let mask0 = &self.y * &ones;
-        let x0_mean = self.x.component_mul(&mask0).row_mean();
-
-        // Calculate mean of features of samples of class 1
-        let mask1 = (-&mask0).add_scalar(1.);
-        let x1_mean = self.x.component_mul(&mask1).row_mean();
-
-        //vector from x0_mean to x1_mean
-        let delta = &x1_mean - &x0_mean;
-
-        //fraction of samples in class 1 , used as weight
-        let y_mean = self.y.mean();
-        let mid = x1_mean * y_mean + x0_mean * (1. - y_mean);
-
-        //compute projection of weighted mean of class on direction delta
-        let scaler = mid.dot(&delta) / delta.magnitude_squared();
-        let dir = delta * scaler;
-
-        // <dir,x>=|dir|^2 is the plane orthogonal to dir with distance |dir| from the origin
-        let bias = -dir.magnitude_squared();
-        let coef = dir.insert_column(0, bias);
 
         // Return the output struct, with the initial guess for the coefficients.
         LogisticRegressionOutput {
-            coefficients: coef.transpose(),
+            coefficients: DVector::zeros(n_feat + 1),
             iterations: 0,
         }
     }
-- 
2.43.0


From a4319b5a98277ef201d3a3197b16983003e2b3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:08 +0000
Subject: [PATCH 69/94] fix: logistic regression reports data without a unique
 fit as an error

---
 crates/RustQuant_ml/src/logistic_regression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_ml/src/logistic_regression.rs b/crates/RustQuant_ml/src/logistic_regression.rs
index 9870680..24478fd 100644
--- a/crates/RustQuant_ml/src/logistic_regression.rs
+++ b/crates/RustQuant_ml/src/logistic_regression.rs
@@ -187,7 +187,7 @@ impl LogisticRegressionInput<f64> {
                     let delta_coefs = hessian
                         .lu()
                         .solve(&z)
-                        .unwrap_or_else(|| panic!("IRLS[{}]:", output.iterations));
+                        .ok_or("The information matrix is singular: the data has no unique fit.")?;
 
                     coefs = &output.coefficients + delta_coefs;
 
-- 
2.43.0


From d4b0bb9d549cf2fee2214c5d31ef1a935cf8f41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:30 +0000
Subject: [PATCH 70/94] fix: logistic regression gives up on data on which it
 does not converge

---
 crates/RustQuant_ml/src/logistic_regression.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/RustQuant_ml/src/logistic_regression.rs b/crates/RustQuant_ml/src/logistic_regression.rs
index 24478fd..9099951 100644
--- a/crates/RustQuant_ml/src/logistic_regression.rs
+++ b/crates/RustQuant_ml/src/logistic_regression.rs
@@ -149,6 +149,8 @@ impl LogisticRegressionInput<f64> {
         // Vector of coefficients that we update each iteration.
         let mut coefs = DVector::from_element(n_cols, f64::INFINITY);
 
+        const MAX_ITERATIONS: usize = 1_000;
+
         match method {
             // MAXIMUM LIKELIHOOD ESTIMATION
             // Using Algorithmic Adjoint Differentiation (AAD)
@@ -174,6 +176,11 @@ impl LogisticRegressionInput<f64> {
                     //
                     let diag_entries = &mu.component_mul(&(&ones_samples - &mu));
 
+                    // Without a maximum of the likelihood the steps need not settle.
+                    if output.iterations >= MAX_ITERATIONS {
+                        return Err("The iterations did not converge.");
+                    }
+
                     // Break if data turns out to be linearly separable.
                     if (&y - &mu).amax() < tolerance {
                         break;
-- 
2.43.0


From 4367d8ccba6d4bb8365ca5d64cbbdf2cf60ea401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:59 +0000
Subject: [PATCH 71/94] fix: logistic regression does not return coefficients
 that are not finite

---
 crates/RustQuant_ml/src/logistic_regression.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/RustQuant_ml/src/logistic_regression.rs b/crates/RustQuant_ml/src/logistic_regression.rs
index 9099951..651d3b0 100644
--- a/crates/RustQuant_ml/src/logistic_regression.rs
+++ b/crates/RustQuant_ml/src/logistic_regression.rs
@@ -198,6 +198,11 @@ impl LogisticRegressionInput<f64> {
 
                     coefs = &output.coefficients + delta_coefs;
 
+                    // Without a maximum of the likelihood the steps may overflow.
+                    if coefs.iter().any(|c| !c.is_finite()) {
+                        return Err("The iterations did not converge.");
+                    }
+
                     output.iterations += 1;
 
                     std::mem::swap(&mut output.coefficients, &mut coefs);
-- 
2.43.0


From 5a745152dbac6fa430c31e9dc65a955544069483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:23 +0000
Subject: [PATCH 72/94] fix: Poisson pmf does not underflow to NaN for large
 rates

---
 crates/RustQuant_math/src/distributions/poisson.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/crates/RustQuant_math/src/distributions/poisson.rs b/crates/RustQuant_math/src/distributions/poisson.rs
index 6e1214b..4a5c955 100644
--- a/crates/RustQuant_math/src/distributions/poisson.rs
+++ b/crates/RustQuant_math/src/distributions/poisson.rs
@@ -97,10 +97,9 @@ impl Distribution for Poisson {
             return 0.0;
         }
 
-        (1..=x as usize)
-            .map(|k| self.lambda / k as f64)
-            .product::<f64>()
-            * (-(self.lambda)).exp()
+        let log_ratio: f64 = (1..=x as usize).map(|k| (self.lambda / k as f64).ln()).sum();
+
+        (log_ratio - self.lambda).exp()
     }
 
     /// Cumulative distribution function of the Poisson distribution.
-- 
2.43.0


From 1f119aac2a3820199f11d5fcf395205a41fd67a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:04 +0000
Subject: [PATCH 73/94] fix: Binomial pmf does not overflow for many trials

---
 .../src/distributions/binomial.rs               | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/crates/RustQuant_math/src/distributions/binomial.rs b/crates/RustQuant_math/src/distributions/binomial.rs
index 1726b32..40c4295 100644
--- a/crates/RustQuant_math/src/distributions/binomial.rs
+++ b/crates/RustQuant_math/src/distributions/binomial.rs
@@ -113,13 +113,20 @@ impl Distribution for Binomial {
         assert!(k >= 0.0 && k as usize <= self.n);
         assert!((0.0..=1.0).contains(&self.p));
 
-        let n_C_k = |n: usize, k: usize| -> f64 {
-            (1..=k).map(|j| (n - k + j) as f64 / j as f64).product()
+        let k = k as usize;
+
+        let ln_n_C_k = |n: usize, k: usize| -> f64 {
+            (1..=k).map(|j| ((n - k + j) as f64 / j as f64).ln()).sum()
+        };
+        let ln_power = |x: f64, m: usize| -> f64 {
+            if m == 0 {
+                0.0
+            } else {
+                m as f64 * x.ln()
+            }
         };
 
-        n_C_k(self.n, k as usize)
-            * self.p.powi(k as i32)
-            * (1.0 - self.p).powi((self.n - k as usize) as i32)
+        (ln_n_C_k(self.n, k) + ln_power(self.p, k) + ln_power(1.0 - self.p, self.n - k)).exp()
     }
 
     /// Cumulative distribution function of the Binomial distribution.
-- 
2.43.0


From d6a34b2b65609aeb83413d438a0ab1d13df71891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:04 +0000
Subject: [PATCH 74/94] fix: ChiSquared cdf is defined at zero, the end of its
 support

---
 crates/RustQuant_math/src/distributions/chi_squared.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/RustQuant_math/src/distributions/chi_squared.rs b/crates/RustQuant_math/src/distributions/chi_squared.rs
index 2196eef..30c4c28 100644
--- a/crates/RustQuant_math/src/distributions/chi_squared.rs
+++ b/crates/RustQuant_math/src/distributions/chi_squared.rs
@@ -124,6 +124,10 @@ impl Distribution for ChiSquared {
     fn cdf(&self, x: f64) -> f64 {
         assert!(if self.k == 1 { x > 0.0 } else { x >= 0.0 });
 
+        if x == 0.0 {
+            return 0.0;
+        }
+
         let k = self.k;
 
         gamma_li(k as f64 / 2.0, x / 2.0) / gamma(k as f64 / 2.0)
-- 
2.43.0


From 8bcbe4fadb8a1b9e604f5415e7dc64b5943e1ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:39 +0000
Subject: [PATCH 75/94] fix: ChiSquared and Gamma do not overflow for large
 shapes

---
 .../src/distributions/chi_squared.rs            | 17 +++++++++--------
 .../RustQuant_math/src/distributions/gamma.rs   |  6 +++---
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/crates/RustQuant_math/src/distributions/chi_squared.rs b/crates/RustQuant_math/src/distributions/chi_squared.rs
index 30c4c28..1639ec2 100644
--- a/crates/RustQuant_math/src/distributions/chi_squared.rs
+++ b/crates/RustQuant_math/src/distributions/chi_squared.rs
@@ -9,7 +9,7 @@
 
 use crate::distributions::Distribution;
 use num::Complex;
-use statrs::function::gamma::{digamma, gamma, gamma_li};
+use statrs::function::gamma::{digamma, gamma_lr, ln_gamma};
 use RustQuant_error::RustQuantError;
 
 // ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
@@ -89,10 +89,13 @@ impl Distribution for ChiSquared {
     fn pdf(&self, x: f64) -> f64 {
         assert!(if self.k == 1 { x > 0.0 } else { x >= 0.0 });
 
-        let k = self.k;
+        if x == 0.0 {
+            return if self.k == 2 { 0.5 } else { 0.0 };
+        }
 
-        x.powf((k as f64 / 2.0) - 1.0) * (-x / 2.0).exp()
-            / (2_f64.powf(k as f64 / 2.0) * gamma(k as f64 / 2.0))
+        let a = self.k as f64 / 2.0;
+
+        ((a - 1.0) * x.ln() - x / 2.0 - a * 2_f64.ln() - ln_gamma(a)).exp()
     }
 
     /// Probability mass function of the Chi-Squared distribution.
@@ -128,9 +131,7 @@ impl Distribution for ChiSquared {
             return 0.0;
         }
 
-        let k = self.k;
-
-        gamma_li(k as f64 / 2.0, x / 2.0) / gamma(k as f64 / 2.0)
+        gamma_lr(self.k as f64 / 2.0, x / 2.0)
     }
 
     /// Inverse (quantile) distribution function of the Chi-Squared distribution.
@@ -266,7 +267,7 @@ impl Distribution for ChiSquared {
     fn entropy(&self) -> f64 {
         let k = self.k as f64;
 
-        k / 2.0 + (2.0 * gamma(k / 2.0)).ln() + (1.0 - k / 2.0) * digamma(k / 2.0)
+        k / 2.0 + 2_f64.ln() + ln_gamma(k / 2.0) + (1.0 - k / 2.0) * digamma(k / 2.0)
     }
 
     /// Moment-generating function of the Chi-Squared distribution.
diff --git a/crates/RustQuant_math/src/distributions/gamma.rs b/crates/RustQuant_math/src/distributions/gamma.rs
index 8a6fec9..afb650b 100644
--- a/crates/RustQuant_math/src/distributions/gamma.rs
+++ b/crates/RustQuant_math/src/distributions/gamma.rs
@@ -9,7 +9,7 @@
 
 use crate::distributions::Distribution;
 use num::Complex;
-use statrs::function::gamma::{gamma, gamma_li};
+use statrs::function::gamma::{gamma_lr, ln_gamma};
 use RustQuant_error::RustQuantError;
 
 // ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
@@ -66,7 +66,7 @@ impl Distribution for Gamma {
         let alpha = self.alpha;
         let beta = self.beta;
 
-        beta.powf(alpha) * x.powf(alpha - 1.0) * (-beta * x).exp() / gamma(alpha)
+        (alpha * beta.ln() + (alpha - 1.0) * x.ln() - beta * x - ln_gamma(alpha)).exp()
     }
 
     fn pmf(&self, x: f64) -> f64 {
@@ -79,7 +79,7 @@ impl Distribution for Gamma {
         let alpha = self.alpha;
         let beta = self.beta;
 
-        gamma_li(alpha, beta * x) / gamma(alpha)
+        gamma_lr(alpha, beta * x)
     }
 
     fn inv_cdf(&self, _p: f64) -> f64 {
-- 
2.43.0


From 30fc1ea5ee6314a962e37a288e0476867b599655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:25 +0000
Subject: [PATCH 76/94] fix: Gaussian quantile keeps the lower tail

---
 crates/RustQuant_math/src/distributions/gaussian.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/RustQuant_math/src/distributions/gaussian.rs b/crates/RustQuant_math/src/distributions/gaussian.rs
index 68e7d53..638a63e 100644
--- a/crates/RustQuant_math/src/distributions/gaussian.rs
+++ b/crates/RustQuant_math/src/distributions/gaussian.rs
@@ -157,7 +157,8 @@ impl Distribution for Gaussian {
     fn inv_cdf(&self, p: f64) -> f64 {
         assert!(self.variance > 0.0);
 
-        self.mean + SQRT_2 * self.variance.sqrt() * erf::erf_inv(2.0 * p - 1.0)
+        // `erfc_inv` is used instead of `erf_inv` as `2p - 1` rounds to -1 in the lower tail.
+        self.mean - SQRT_2 * self.variance.sqrt() * erf::erfc_inv(2.0 * p)
     }
 
     /// Returns the mean of the Gaussian distribution.
-- 
2.43.0


From 14f0d48d8794c1de490c49b1afe430236f50ffef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:17 +0000
Subject: [PATCH 77/94] fix: Geometric mean overflows for long vectors

---
 crates/RustQuant_math/src/statistic.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/RustQuant_math/src/statistic.rs b/crates/RustQuant_math/src/statistic.rs
index 7b21564..58a0ac0 100644
--- a/crates/RustQuant_math/src/statistic.rs
+++ b/crates/RustQuant_math/src/statistic.rs
@@ -90,7 +90,15 @@ impl Statistic<f64> for Vec<f64> {
     fn geometric_mean(&self) -> f64 {
         assert!(!self.is_empty(), "Vector must have at least one element.");
 
-        self.iter().product::<f64>().powf(1.0 / self.len() as f64)
+        // The mean of the logarithms, since the product of a long vector overflows or underflows.
+        let n = self.len() as f64;
+        let magnitude = (self.iter().map(|x| x.abs().ln()).sum::<f64>() / n).exp();
+
+        if magnitude == 0.0 {
+            return 0.0;
+        }
+
+        self.iter().map(|x| x.signum()).product::<f64>().powf(1.0 / n) * magnitude
     }
 
     fn harmonic_mean(&self) -> f64 {
-- 
2.43.0


From 51265401360b59cd61d93b33ebe42e52cca3ea14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:15 +0000
Subject: [PATCH 78/94] fix: finite differences do not overflow on fine grids

---
 .../src/options/finite_difference_pricer.rs          | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/RustQuant_instruments/src/options/finite_difference_pricer.rs b/crates/RustQuant_instruments/src/options/finite_difference_pricer.rs
index 2ca4ff7..39887ab 100644
--- a/crates/RustQuant_instruments/src/options/finite_difference_pricer.rs
+++ b/crates/RustQuant_instruments/src/options/finite_difference_pricer.rs
@@ -124,6 +124,16 @@ impl FiniteDifferencePricer {
         diagonal: f64,
         super_diagonal: f64,
     ) -> Vec<Vec<f64>> {
+        // The matrix is inverted after division by the growth rate of its
+        // principal minors, which otherwise overflow on fine grids.
+        let scale: f64 =
+            0.5 * (diagonal + (diagonal * diagonal - 4.0 * super_diagonal * sub_diagonal).sqrt());
+        let (sub_diagonal, diagonal, super_diagonal) = (
+            sub_diagonal / scale,
+            diagonal / scale,
+            super_diagonal / scale,
+        );
+
         let mut theta: Vec<f64> = Vec::new();
         let system_size: usize = (self.price_steps - 1) as usize;
 
@@ -173,7 +183,7 @@ impl FiniteDifferencePricer {
                         value *= theta[j] * phi[i] / theta_n
                     }
                 }
-                matrix_row.push(value);
+                matrix_row.push(value / scale);
             }
             inverse_matrix.push(matrix_row.clone());
             matrix_row.clear()
-- 
2.43.0


From a55da0c6e46a5d7ebedddbaf7b60e0286291d28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:22 +0000
Subject: [PATCH 79/94] fix: Poisson quantile terminates in the far upper tail

---
 crates/RustQuant_math/src/distributions/poisson.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/RustQuant_math/src/distributions/poisson.rs b/crates/RustQuant_math/src/distributions/poisson.rs
index 4a5c955..40f30c8 100644
--- a/crates/RustQuant_math/src/distributions/poisson.rs
+++ b/crates/RustQuant_math/src/distributions/poisson.rs
@@ -141,7 +141,12 @@ impl Distribution for Poisson {
         let mut sum = 0.0;
         let mut k = 0;
         while sum < p {
-            sum += self.pmf(f64::from(k));
+            let next = sum + self.pmf(f64::from(k));
+            // Past the mean the terms decrease: the sum has reached its limit.
+            if next == sum && f64::from(k) > self.lambda {
+                break;
+            }
+            sum = next;
             k += 1;
         }
         f64::from(0.max(k - 1))
-- 
2.43.0


From dd3e883b7e5850f29c66980f167de7d2b694bb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:42 +0000
Subject: [PATCH 80/94] fix: put deltas keep their precision far out of the
 money

---
 .../RustQuant_instruments/src/options/black_scholes_merton.rs | 2 +-
 crates/RustQuant_instruments/src/options/option_models.rs     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/RustQuant_instruments/src/options/black_scholes_merton.rs b/crates/RustQuant_instruments/src/options/black_scholes_merton.rs
index 73daa4d..ca47d3a 100644
--- a/crates/RustQuant_instruments/src/options/black_scholes_merton.rs
+++ b/crates/RustQuant_instruments/src/options/black_scholes_merton.rs
@@ -197,7 +197,7 @@ impl BlackScholesMerton {
 
         match self.option_type {
             TypeFlag::Call => ((b - r) * T).exp() * n.cdf(d1),
-            TypeFlag::Put => ((b - r) * T).exp() * (n.cdf(d1) - 1.0),
+            TypeFlag::Put => -((b - r) * T).exp() * n.cdf(-d1),
         }
     }
 
diff --git a/crates/RustQuant_instruments/src/options/option_models.rs b/crates/RustQuant_instruments/src/options/option_models.rs
index 436fc3b..a60b670 100644
--- a/crates/RustQuant_instruments/src/options/option_models.rs
+++ b/crates/RustQuant_instruments/src/options/option_models.rs
@@ -352,7 +352,7 @@ mod bsm {
     pub(crate) fn put_delta(s: f64, k: f64, t: f64, r: f64, b: f64, v: f64) -> f64 {
         let d1 = d1(s, k, t, b, v);
 
-        ((b - r) * t).exp() * (N.cdf(d1) - 1.0)
+        -((b - r) * t).exp() * N.cdf(-d1)
     }
 
     #[inline]
@@ -1134,7 +1134,7 @@ mod bachelier {
     #[inline]
     pub(crate) fn put_delta(f: f64, k: f64, t: f64, v: f64) -> f64 {
         let d = d(f, k, t, v);
-        N.cdf(d) - 1.0
+        -N.cdf(-d)
     }
 
     #[inline]
-- 
2.43.0


From b7fdea664f196fad5c70d7ae60f127e2a7d20a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:15 +0000
Subject: [PATCH 81/94] fix: Longstaff-Schwartz prices do not depend on the
 unit of the underlying

---
 .../src/options/longstaff_schwartz.rs         | 22 +++++++++++--------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/crates/RustQuant_instruments/src/options/longstaff_schwartz.rs b/crates/RustQuant_instruments/src/options/longstaff_schwartz.rs
index 1077135..4d7580e 100644
--- a/crates/RustQuant_instruments/src/options/longstaff_schwartz.rs
+++ b/crates/RustQuant_instruments/src/options/longstaff_schwartz.rs
@@ -102,15 +102,18 @@ impl LongstaffScwhartzPricer {
             let laguerre_matrix = self.create_laguerre_matrix(&in_the_money_assets);
             let in_the_money_payoffs =
                 self.discount(delta_t) * DVector::from_vec(filter_in_the_money_payoffs);
-            let laguerre_matrix_transpose = laguerre_matrix.transpose();
 
-            let least_squares_calculation = (&laguerre_matrix_transpose * &laguerre_matrix)
-                .qr()
-                .solve(&(&laguerre_matrix_transpose * in_the_money_payoffs));
-
-            match least_squares_calculation {
-                Some(regression_coefficients) => {
-                    let continuation_value = &laguerre_matrix * regression_coefficients;
+            // Least-squares fit, by projection onto the columns of the basis:
+            // the normal equations are too badly conditioned to be solved.
+            let least_squares_fit = if in_the_money_indices.is_empty() {
+                None
+            } else {
+                let q = laguerre_matrix.qr().q();
+                Some(&q * (q.transpose() * in_the_money_payoffs))
+            };
+
+            match least_squares_fit {
+                Some(continuation_value) => {
                     regression_index = -1;
                     for i in 0..self.num_simulations {
                         if in_the_money_indices.contains(&(i as usize)) {
@@ -230,7 +233,8 @@ impl LongstaffScwhartzPricer {
                 let payoff = self.calculate_payoff(asset_price);
                 if payoff > 0.0 {
                     in_the_money_indices.push(i);
-                    Some(payoff)
+                    // In units of the strike: the basis is not homogeneous.
+                    Some(payoff / self.strike_price)
                 } else {
                     None
                 }
-- 
2.43.0


From 4b249de1c1ed183bb309f9232bd1b9cef7d0d070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:02 +0000
Subject: [PATCH 82/94] fix: recorded sigmoid, logistic and softplus do not
 overflow

---
 crates/RustQuant_ml/src/activations.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/crates/RustQuant_ml/src/activations.rs b/crates/RustQuant_ml/src/activations.rs
index 08da782..aaea764 100644
--- a/crates/RustQuant_ml/src/activations.rs
+++ b/crates/RustQuant_ml/src/activations.rs
@@ -46,7 +46,12 @@ pub trait ActivationFunction {
 impl ActivationFunction for Variable<'_> {
     #[inline]
     fn sigmoid(&self) -> Self {
-        ((-(*self)).exp() + 1_f64).recip()
+        if self.value() > 0.0 {
+            ((-(*self)).exp() + 1_f64).recip()
+        } else {
+            let e = (*self).exp();
+            e / (e + 1_f64)
+        }
     }
 
     #[inline]
@@ -56,7 +61,12 @@ impl ActivationFunction for Variable<'_> {
 
     #[inline]
     fn logistic(&self) -> Self {
-        ((-(*self)).exp() + 1_f64).recip()
+        if self.value() > 0.0 {
+            ((-(*self)).exp() + 1_f64).recip()
+        } else {
+            let e = (*self).exp();
+            e / (e + 1_f64)
+        }
     }
 
     #[inline]
@@ -76,7 +86,11 @@ impl ActivationFunction for Variable<'_> {
 
     #[inline]
     fn softplus(&self) -> Self {
-        (1.0 + self.exp()).ln()
+        if self.value() > 0.0 {
+            *self + (1.0 + (-(*self)).exp()).ln()
+        } else {
+            (1.0 + self.exp()).ln()
+        }
     }
 
     #[inline]
-- 
2.43.0


From 0841ef8c48fea605067f458e8742dcd1c984909a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:02 +0000
Subject: [PATCH 83/94] fix: Exponential keeps small probabilities

---
 crates/RustQuant_math/src/distributions/exponential.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/RustQuant_math/src/distributions/exponential.rs b/crates/RustQuant_math/src/distributions/exponential.rs
index 6935ea5..51febcc 100644
--- a/crates/RustQuant_math/src/distributions/exponential.rs
+++ b/crates/RustQuant_math/src/distributions/exponential.rs
@@ -90,7 +90,7 @@ impl Distribution for Exponential {
     fn cdf(&self, x: f64) -> f64 {
         assert!(x >= 0.0);
 
-        1.0 - (-self.lambda * x).exp()
+        -(-self.lambda * x).exp_m1()
     }
 
     /// ```
@@ -102,7 +102,7 @@ impl Distribution for Exponential {
     /// assert_approx_equal!(exp.inv_cdf(0.5), 0.6931472, 1e-7);
     /// ```
     fn inv_cdf(&self, p: f64) -> f64 {
-        -(1. - p).ln() / self.lambda
+        -(-p).ln_1p() / self.lambda
     }
 
     /// ```
-- 
2.43.0


From 41e7fc54f75f39fc9cf0c22bf16dec2849965b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:02 +0000
Subject: [PATCH 84/94] fix: fractional noise is not NaN where an eigenvalue is
 rounded below zero

---
 crates/RustQuant_stochastics/src/fractional_process.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_stochastics/src/fractional_process.rs b/crates/RustQuant_stochastics/src/fractional_process.rs
index 1ba4ea2..b5c25a2 100644
--- a/crates/RustQuant_stochastics/src/fractional_process.rs
+++ b/crates/RustQuant_stochastics/src/fractional_process.rs
@@ -123,7 +123,7 @@ pub fn fgn_fft(hurst: f64, n: usize, t_n: f64, seed: Option<u64>) -> Vec<f64> {
 
     ndfft_par(&data, &mut sqrt_eigenvalues, &r_fft, 0);
 
-    sqrt_eigenvalues.par_mapv_inplace(|x| Complex::new((x.re / (2.0 * n as f64)).sqrt(), x.im));
+    sqrt_eigenvalues.par_mapv_inplace(|x| Complex::new((x.re.max(0.0) / (2.0 * n as f64)).sqrt(), x.im));
 
     let mut rng = match seed {
         Some(seed) => StdRng::seed_from_u64(seed),
-- 
2.43.0


From 17db2aa20d832ca530911f016fe953e4e0b4fc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:02 +0000
Subject: [PATCH 85/94] fix: ChiSquared quantile of a tiny probability
 terminates

---
 crates/RustQuant_math/src/distributions/chi_squared.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/RustQuant_math/src/distributions/chi_squared.rs b/crates/RustQuant_math/src/distributions/chi_squared.rs
index 1639ec2..70a80c7 100644
--- a/crates/RustQuant_math/src/distributions/chi_squared.rs
+++ b/crates/RustQuant_math/src/distributions/chi_squared.rs
@@ -165,6 +165,9 @@ impl Distribution for ChiSquared {
         while upper - lower > 1e-12 * upper {
             let mid = 0.5 * (lower + upper);
 
+            if mid <= lower || mid >= upper {
+                break;
+            }
             if self.cdf(mid) < p {
                 lower = mid;
             } else {
-- 
2.43.0


From 1a8a96d4213b656fac32f54781b1c78e29c90cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:22 +0000
Subject: [PATCH 86/94] fix: Gamma and ChiSquared probabilities of very small
 and infinite values

---
 .../src/distributions/chi_squared.rs            |  5 +++--
 .../RustQuant_math/src/distributions/gamma.rs   | 17 ++++++++++++++++-
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/crates/RustQuant_math/src/distributions/chi_squared.rs b/crates/RustQuant_math/src/distributions/chi_squared.rs
index 70a80c7..f4f660a 100644
--- a/crates/RustQuant_math/src/distributions/chi_squared.rs
+++ b/crates/RustQuant_math/src/distributions/chi_squared.rs
@@ -7,9 +7,10 @@
 //      - LICENSE-MIT.md
 // ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
 
+use crate::distributions::gamma::regularised_lower_gamma;
 use crate::distributions::Distribution;
 use num::Complex;
-use statrs::function::gamma::{digamma, gamma_lr, ln_gamma};
+use statrs::function::gamma::{digamma, ln_gamma};
 use RustQuant_error::RustQuantError;
 
 // ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
@@ -131,7 +132,7 @@ impl Distribution for ChiSquared {
             return 0.0;
         }
 
-        gamma_lr(self.k as f64 / 2.0, x / 2.0)
+        regularised_lower_gamma(self.k as f64 / 2.0, x / 2.0)
     }
 
     /// Inverse (quantile) distribution function of the Chi-Squared distribution.
diff --git a/crates/RustQuant_math/src/distributions/gamma.rs b/crates/RustQuant_math/src/distributions/gamma.rs
index afb650b..3820b1a 100644
--- a/crates/RustQuant_math/src/distributions/gamma.rs
+++ b/crates/RustQuant_math/src/distributions/gamma.rs
@@ -51,6 +51,21 @@ impl Gamma {
     }
 }
 
+/// Regularised lower incomplete gamma function.
+///
+/// `gamma_lr` rounds its argument to zero below about `1e-14` (where the
+/// leading term of the series is exact to double precision), and is undefined
+/// at infinity.
+pub(crate) fn regularised_lower_gamma(a: f64, x: f64) -> f64 {
+    if x < 2e-14 {
+        (a * x.ln() - ln_gamma(a + 1.0)).exp()
+    } else if x == f64::INFINITY {
+        1.0
+    } else {
+        gamma_lr(a, x)
+    }
+}
+
 impl Distribution for Gamma {
     fn cf(&self, t: f64) -> Complex<f64> {
         let i: Complex<f64> = Complex::i();
@@ -79,7 +94,7 @@ impl Distribution for Gamma {
         let alpha = self.alpha;
         let beta = self.beta;
 
-        gamma_lr(alpha, beta * x)
+        regularised_lower_gamma(alpha, beta * x)
     }
 
     fn inv_cdf(&self, _p: f64) -> f64 {
-- 
2.43.0


From a766714ec8e9232ac0ccdeae1cc9a544f5787c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:31 +0000
Subject: [PATCH 87/94] fix: Milstein's derivative step follows the scale of
 the process

---
 crates/RustQuant_stochastics/src/simulation.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/RustQuant_stochastics/src/simulation.rs b/crates/RustQuant_stochastics/src/simulation.rs
index 9b899ff..9cc5076 100644
--- a/crates/RustQuant_stochastics/src/simulation.rs
+++ b/crates/RustQuant_stochastics/src/simulation.rs
@@ -68,6 +68,9 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
 
                 let mut dw: f64;
                 for t in 0..config.n_steps {
+                    // The derivative is differenced over a step in proportion to the value,
+                    // small enough to stay in the domain of the process and not lost to rounding.
+                    let h = 1e-7 * path[t].abs().max(1.0);
                     dw = match noise_gen {
                         NoiseGenerator::Dynamic(ref mut rng) => diffusion_scale * normal_dist.sample(rng),
                         NoiseGenerator::Fractional(ref noise) => noise[t],
@@ -78,9 +81,9 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
                         + stochastic_process.diffusion(path[t], times_ref[t]) * dw
                         + 0.5
                         * (stochastic_process.diffusion(path[t], times_ref[t])
-                        * ((stochastic_process.diffusion(path[t] + 1e-5, times_ref[t])
-                                    - stochastic_process.diffusion(path[t] - 1e-5, times_ref[t]))
-                                    / 2e-5)
+                        * ((stochastic_process.diffusion(path[t] + h, times_ref[t])
+                                    - stochastic_process.diffusion(path[t] - h, times_ref[t]))
+                                    / (2.0 * h))
                         * ((dw * dw) - dt))
                         + match (&jump_dist, &mut noise_gen) {
                             (Some(jump_dist), NoiseGenerator::Dynamic(rng)) => {
-- 
2.43.0


From 61caa3bd2c3d485e984ca4e5a44a14c214bb991b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:32 +0000
Subject: [PATCH 88/94] fix: every jump that arrives within a step is added

---
 crates/RustQuant_stochastics/src/simulation.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/crates/RustQuant_stochastics/src/simulation.rs b/crates/RustQuant_stochastics/src/simulation.rs
index 9cc5076..fedadae 100644
--- a/crates/RustQuant_stochastics/src/simulation.rs
+++ b/crates/RustQuant_stochastics/src/simulation.rs
@@ -167,16 +167,10 @@ fn calculate_jump<T: StochasticProcess>(
     time_ref: f64,
     jump: f64,
 ) -> f64 {
-    match stochastic_process.jump(x, time_ref) {
-        Some(jump_size) => {
-            if jump > 0.0 {
-                jump_size
-            } else {
-                0.0
-            }
-        },
-        None => 0.0,
-    }
+    // Several jumps may arrive within one step, each of its own size.
+    (0..jump as u64)
+        .filter_map(|_| stochastic_process.jump(x, time_ref))
+        .sum()
 }
 
 #[cfg(test)]
-- 
2.43.0


From beead1dc897b3e5f059514c05401a48cced432f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:32 +0000
Subject: [PATCH 89/94] fix: Nelson-Siegel-Svensson spot rate keeps its
 precision for slow decays

---
 crates/RustQuant_stochastics/src/nelson_siegel_svensson.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/RustQuant_stochastics/src/nelson_siegel_svensson.rs b/crates/RustQuant_stochastics/src/nelson_siegel_svensson.rs
index a3b7121..8af0586 100644
--- a/crates/RustQuant_stochastics/src/nelson_siegel_svensson.rs
+++ b/crates/RustQuant_stochastics/src/nelson_siegel_svensson.rs
@@ -83,9 +83,9 @@ impl CurveModel for NelsonSiegelSvensson {
 
         let tau = DayCountConvention::Actual_365_25.day_count_factor(today(), date);
 
-        let term1 = self.lambda1 * (1. - f64::exp(-tau / self.lambda1)) / tau;
+        let term1 = -self.lambda1 * f64::exp_m1(-tau / self.lambda1) / tau;
         let term2 = term1 - f64::exp(-tau / self.lambda1);
-        let term3 = self.lambda2 * (1. - f64::exp(-tau / self.lambda2)) / tau
+        let term3 = -self.lambda2 * f64::exp_m1(-tau / self.lambda2) / tau
             - f64::exp(-tau / self.lambda2);
 
         self.beta0 + self.beta1 * term1 + self.beta2 * term2 + self.beta3 * term3
-- 
2.43.0


From eff9cbed98b0dedb843fe6208d3c6468793474ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:32 +0000
Subject: [PATCH 90/94] fix: a curve built with a repeated date interpolates
 its own nodes

---
 crates/RustQuant_data/src/curves.rs | 29 ++++++++---------------------
 1 file changed, 8 insertions(+), 21 deletions(-)

diff --git a/crates/RustQuant_data/src/curves.rs b/crates/RustQuant_data/src/curves.rs
index 896c772..a8f2d6e 100644
--- a/crates/RustQuant_data/src/curves.rs
+++ b/crates/RustQuant_data/src/curves.rs
@@ -36,6 +36,7 @@ use pyo3::{pyclass, pymethods, PyResult};
 use std::collections::BTreeMap;
 use std::sync::Arc;
 use time::Date;
+use RustQuant_error::RustQuantError;
 use RustQuant_math::interpolation::{ExponentialInterpolator, Interpolator, LinearInterpolator};
 use RustQuant_stochastics::{CurveModel, NelsonSiegelSvensson};
 
@@ -109,28 +110,14 @@ impl Curve {
         curve_type: CurveType,
         interpolation_method: InterpolationMethod,
     ) -> PyResult<Self> {
-        let interpolator: Arc<dyn Interpolator<Date, f64>> = match interpolation_method {
-            InterpolationMethod::Linear => {
-                Arc::new(LinearInterpolator::new(dates.clone(), rates.clone())?)
-            }
-            InterpolationMethod::Exponential => {
-                Arc::new(ExponentialInterpolator::new(dates.clone(), rates.clone())?)
-            }
-            InterpolationMethod::CubicSpline => {
-                todo!("Implement CubicSplineInterpolator")
-            }
-            InterpolationMethod::Lagrange => {
-                todo!("Implement LagrangeInterpolator")
-            }
-        };
+        if dates.len() != rates.len() {
+            return Err(RustQuantError::UnequalLength.into());
+        }
 
-        Ok(Self {
-            nodes: dates.into_iter().zip(rates.into_iter()).collect(),
-            curve_type,
-            interpolation_method,
-            interpolator,
-            nss: None,
-        })
+        // A date given twice is one node, of the last rate given, for the interpolator as well.
+        let nodes = dates.into_iter().zip(rates).collect();
+
+        Self::from_nodes(nodes, curve_type, interpolation_method)
     }
 
     /// Create a new Curve from a list of nodes.
-- 
2.43.0


From f6a108f433b73b83cdae68dafdfd6cfbbf6d2261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:11 +0000
Subject: [PATCH 91/94] fix: root finders do not take small function values for
 roots

---
 crates/RustQuant_math/src/rootfinding/rootfinder.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/RustQuant_math/src/rootfinding/rootfinder.rs b/crates/RustQuant_math/src/rootfinding/rootfinder.rs
index 2fcf82b..e469360 100644
--- a/crates/RustQuant_math/src/rootfinding/rootfinder.rs
+++ b/crates/RustQuant_math/src/rootfinding/rootfinder.rs
@@ -135,10 +135,8 @@ impl RootfinderData {
         let tolerance = n as f64 * f64::EPSILON;
         // let tolerance = f64::sqrt(f64::EPSILON);
 
-        if x * y == 0.0 {
-            return diff < f64::powi(tolerance, 2);
-        }
-
+        // Relative to both numbers, so that nothing but zero is close to zero:
+        // the values of a function may be small everywhere.
         diff <= tolerance * f64::abs(x) && diff <= tolerance * f64::abs(y)
     }
     #[allow(dead_code)]
-- 
2.43.0


From 02af98f788a023eb93d32b6fcaafdc6c85a4c89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:18 +0000
Subject: [PATCH 92/94] fix: Binomial distribution function is constant between
 the integers

---
 crates/RustQuant_math/src/distributions/binomial.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/RustQuant_math/src/distributions/binomial.rs b/crates/RustQuant_math/src/distributions/binomial.rs
index 40c4295..a9b40c6 100644
--- a/crates/RustQuant_math/src/distributions/binomial.rs
+++ b/crates/RustQuant_math/src/distributions/binomial.rs
@@ -147,6 +147,9 @@ impl Distribution for Binomial {
             return 1.0;
         }
 
+        // The distribution function is constant between the integers.
+        let k = k.floor();
+
         statrs::function::beta::beta_reg((self.n - k as usize) as f64, 1_f64 + k, 1_f64 - self.p)
     }
 
-- 
2.43.0


From 96814f7d1e1d382bccb07ea000010ffe8d28254e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:28 +0000
Subject: [PATCH 93/94] fix: gradients are not affected by unrelated operations
 with infinite partials

---
 crates/RustQuant_autodiff/src/accumulate.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/RustQuant_autodiff/src/accumulate.rs b/crates/RustQuant_autodiff/src/accumulate.rs
index 2cf1a1c..659f2c1 100644
--- a/crates/RustQuant_autodiff/src/accumulate.rs
+++ b/crates/RustQuant_autodiff/src/accumulate.rs
@@ -43,6 +43,12 @@ impl Accumulate<Vec<f64>> for Variable<'_> {
         for (index, vertex) in self.graph.vertices.borrow().iter().enumerate().rev() {
             let deriv = adjoints[index];
 
+            // An operation the output does not depend on contributes nothing,
+            // even where its own partial derivatives are not finite.
+            if deriv == 0.0 {
+                continue;
+            }
+
             adjoints[vertex.parents[0]] += vertex.partials[0] * deriv;
             adjoints[vertex.parents[1]] += vertex.partials[1] * deriv;
         }
-- 
2.43.0


From 74f4686d6f9b820e3f8cd86f94932c4d33525ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:28 +0000
Subject: [PATCH 94/94] fix: derivative of a power of zero with respect to its
 exponent is NaN

---
 crates/RustQuant_autodiff/src/overload.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/crates/RustQuant_autodiff/src/overload.rs b/crates/RustQuant_autodiff/src/overload.rs
index 7013e59..aca44cd 100644
--- a/crates/RustQuant_autodiff/src/overload.rs
+++ b/crates/RustQuant_autodiff/src/overload.rs
@@ -1361,6 +1361,17 @@ pub trait Powf<T> {
 }
 
 // Variable<'v> ^ Variable<'v>
+/// The partial derivative of `base.powf(exponent)` with respect to the exponent.
+/// A power of zero stays zero when its positive exponent changes.
+#[inline]
+fn powf_partial_wrt_exponent(base: f64, exponent: f64) -> f64 {
+    if base == 0.0 && exponent > 0.0 {
+        0.0
+    } else {
+        f64::powf(base, exponent) * f64::ln(base)
+    }
+}
+
 impl<'v> Powf<Variable<'v>> for Variable<'v> {
     type Output = Variable<'v>;
 
@@ -1376,7 +1387,7 @@ impl<'v> Powf<Variable<'v>> for Variable<'v> {
                 &[self.index, other.index],
                 &[
                     other.value * f64::powf(self.value, other.value - 1.),
-                    f64::powf(self.value, other.value) * f64::ln(self.value),
+                    powf_partial_wrt_exponent(self.value, other.value),
                 ],
             ),
         }
@@ -1420,7 +1431,7 @@ impl<'v> Powf<Variable<'v>> for f64 {
             index: other.graph.push(
                 Arity::Binary,
                 &[other.index, other.index],
-                &[0.0, f64::powf(*self, other.value) * f64::ln(*self)],
+                &[0.0, powf_partial_wrt_exponent(*self, other.value)],
             ),
         }
     }
@@ -1451,7 +1462,7 @@ impl<'v> Powi<Variable<'v>> for Variable<'v> {
                 &[self.index, other.index],
                 &[
                     other.value * f64::powf(self.value, other.value - 1.),
-                    f64::powf(self.value, other.value) * f64::ln(self.value),
+                    powf_partial_wrt_exponent(self.value, other.value),
                 ],
             ),
         }
@@ -1495,7 +1506,7 @@ impl<'v> Powi<Variable<'v>> for f64 {
             index: other.graph.push(
                 Arity::Binary,
                 &[other.index, other.index],
-                &[0.0, f64::powf(*self, other.value) * f64::ln(*self)],
+                &[0.0, powf_partial_wrt_exponent(*self, other.value)],
             ),
         }
     }
-- 
2.43.0

