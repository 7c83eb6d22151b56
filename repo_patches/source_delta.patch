From b70ec4b3f5e0b5a8ec01bdfafe277ca2ebfaa7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:52 +0000
Subject: [PATCH 01/32] fix: 30/360 day count between dates whose month number
 decreases

The month difference was computed in u32 and underflowed (panicking in
checked builds) whenever the later date's month number was smaller.
---
 crates/qlab-time/src/day_count/thirty_360.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/crates/qlab-time/src/day_count/thirty_360.rs b/crates/qlab-time/src/day_count/thirty_360.rs
index 690c7b0..06d83a4 100644
--- a/crates/qlab-time/src/day_count/thirty_360.rs
+++ b/crates/qlab-time/src/day_count/thirty_360.rs
@@ -8,26 +8,24 @@ use qlab_math::value::Value;
 pub struct Thirty360;
 
 impl Thirty360 {
-    #[allow(clippy::cast_sign_loss)] // validation deals with it
-    fn date_diff(date1: Date, date2: Date) -> QLabResult<u32> {
+    #[allow(clippy::cast_possible_wrap)] // months and days are small
+    fn date_diff(date1: Date, date2: Date) -> QLabResult<i32> {
         if date1 > date2 {
             return Err(
                 InvalidInput(format!("date1: {date1} must precede date2: {date2}").into()).into(),
             );
         }
-        let d1 = date1.day().min(30);
-        let d2 = date2.day().min(30);
-        Ok(
-            360 * (date2.year() - date1.year()) as u32 + 30 * (date2.month() - date1.month()) + d2
-                - d1,
-        )
+        let d1 = date1.day().min(30) as i32;
+        let d2 = date2.day().min(30) as i32;
+        let months = date2.month() as i32 - date1.month() as i32;
+        Ok(360 * (date2.year() - date1.year()) + 30 * months + d2 - d1)
     }
 }
 
 impl DayCount for Thirty360 {
     fn calculate_day_count_fraction<V: Value>(date1: Date, date2: Date) -> QLabResult<V> {
         let date_diff = Self::date_diff(date1, date2)?;
-        let date_diff = V::from_u32(date_diff)
+        let date_diff = V::from_i32(date_diff)
             .ok_or_else(|| ComputeError::CastNumberError(format!("{date_diff}").into()))?;
         let denomination =
             V::from_i32(360).ok_or_else(|| ComputeError::CastNumberError("360".into()))?;
-- 
2.43.0


From 99ba4e68dbb0d100e04353b7bd48cc227f4688c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:52 +0000
Subject: [PATCH 02/32] fix: checked_add_years returns None instead of
 overflowing the year

---
 crates/qlab-time/src/date.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/qlab-time/src/date.rs b/crates/qlab-time/src/date.rs
index 81999ba..3043718 100644
--- a/crates/qlab-time/src/date.rs
+++ b/crates/qlab-time/src/date.rs
@@ -70,12 +70,12 @@ impl Date {
     /// `None` if the resulting date is not valid.
     #[must_use]
     pub fn checked_add_years(self, rhs_years: Years) -> Option<Self> {
-        self.0.with_year(self.0.year() + rhs_years.0).map_or_else(
+        let year = self.0.year().checked_add(rhs_years.0)?;
+        self.0.with_year(year).map_or_else(
             || {
-                self.0.with_day(28).and_then(|date| {
-                    date.with_year(self.0.year() + rhs_years.0)
-                        .map(std::convert::Into::into)
-                })
+                self.0
+                    .with_day(28)
+                    .and_then(|date| date.with_year(year).map(std::convert::Into::into))
             },
             |date| Some(date.into()),
         )
-- 
2.43.0


From dbdc3cfc8bbf25bca85d3179cf8d802000edae07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:29 +0000
Subject: [PATCH 03/32] fix: modified rolling compares against the month of the
 unadjusted date

The rolled date's month was compared with the month of the start date, so
any period that left the month always fell back to the other direction.
---
 crates/qlab-time/src/date.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/qlab-time/src/date.rs b/crates/qlab-time/src/date.rs
index 3043718..b084909 100644
--- a/crates/qlab-time/src/date.rs
+++ b/crates/qlab-time/src/date.rs
@@ -273,8 +273,9 @@ impl Date {
                 Some(ret)
             }
             DateRolling::ModifiedFollowing => {
+                let unadjusted = self.checked_roll(period, calendar, DateRolling::Unadjusted)?;
                 let ret = self.checked_roll(period, calendar, DateRolling::Following)?;
-                if ret.month() == self.month() {
+                if ret.month() == unadjusted.month() {
                     Some(ret)
                 } else {
                     self.checked_roll(period, calendar, DateRolling::Preceding)
@@ -288,8 +289,9 @@ impl Date {
                 Some(ret)
             }
             DateRolling::ModifiedPreceding => {
+                let unadjusted = self.checked_roll(period, calendar, DateRolling::Unadjusted)?;
                 let ret = self.checked_roll(period, calendar, DateRolling::Preceding)?;
-                if ret.month() == self.month() {
+                if ret.month() == unadjusted.month() {
                     Some(ret)
                 } else {
                     self.checked_roll(period, calendar, DateRolling::Following)
-- 
2.43.0


From 961aa0316450db180f3b999e11812a65556f9d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:29 +0000
Subject: [PATCH 04/32] fix: business_days_between honours include_first and
 handles equal dates

include_first was inverted (true skipped the first date), and with equal
dates the negative day difference made the usize conversion panic.
---
 third-parties/calendar/src/lib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/third-parties/calendar/src/lib.rs b/third-parties/calendar/src/lib.rs
index 641192d..3d2fe55 100644
--- a/third-parties/calendar/src/lib.rs
+++ b/third-parties/calendar/src/lib.rs
@@ -213,9 +213,10 @@ pub trait Calendar: Debug {
         let include_last = include_last.unwrap_or(false);
         let mut day_count = 0;
         let day_diff = ((to + Duration::days(i64::from(include_last)))
-            - (from + Duration::days(i64::from(include_first))))
-        .num_days();
-        for date in (from + Duration::days(i64::from(include_first)))
+            - (from + Duration::days(i64::from(!include_first))))
+        .num_days()
+        .max(0);
+        for date in (from + Duration::days(i64::from(!include_first)))
             .iter_days()
             .take(usize::try_from(day_diff).unwrap())
         {
-- 
2.43.0


From 3afe1164b218e4477d4295332ae53cbc0f220337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:29 +0000
Subject: [PATCH 05/32] fix: Linear rejects knots that are not strictly
 ascending

Unsorted knots were accepted and silently interpolated wrongly, and a
repeated knot divided by zero.
---
 crates/qlab-math/src/interpolation/linear.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/qlab-math/src/interpolation/linear.rs b/crates/qlab-math/src/interpolation/linear.rs
index 3f24735..b53810c 100644
--- a/crates/qlab-math/src/interpolation/linear.rs
+++ b/crates/qlab-math/src/interpolation/linear.rs
@@ -50,6 +50,9 @@ impl<V: Value> Interpolator for Linear<V> {
     fn try_fit(mut self, raw_points: &[(V, V)]) -> Result<Self, InterpolationError<V>> {
         let mut points = Vec::with_capacity(raw_points.len());
         for &(x, y) in raw_points {
+            if points.last().is_some_and(|last: &Point2D<V>| last.x >= x) {
+                return Err(InterpolationError::PointOrderError);
+            }
             points.push(Point2D { x, y });
         }
         self.points = points;
-- 
2.43.0


From 2132d9f003594dba9b0afcfd2298b2c1c2959c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:29 +0000
Subject: [PATCH 06/32] fix: Linear with a single knot no longer panics when
 evaluated at it

---
 crates/qlab-math/src/interpolation/linear.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/qlab-math/src/interpolation/linear.rs b/crates/qlab-math/src/interpolation/linear.rs
index b53810c..d4c252a 100644
--- a/crates/qlab-math/src/interpolation/linear.rs
+++ b/crates/qlab-math/src/interpolation/linear.rs
@@ -77,6 +77,9 @@ impl<V: Value> Interpolator for Linear<V> {
     /// * `InvalidInput` - Represents an error when the input is invalid or out-of-bounds.
     fn try_value(&self, x: V) -> Result<V, InterpolationError<V>> {
         let pos = find_index_at_left_boundary(&self.points, x)?;
+        if self.points.len() == 1 {
+            return Ok(self.points[0].y);
+        }
 
         Ok(self.points[pos].y
             + (self.points[pos + 1].y - self.points[pos].y)
-- 
2.43.0


From d4f8a63269dbff533349f462fe3592063c1c0f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:12 +0000
Subject: [PATCH 07/32] fix: splines reject repeated knots

A repeated x coordinate passed the order check and produced NaN or
infinite values from a division by the zero-width interval.
---
 crates/qlab-math/src/interpolation/spline/catmull_rom.rs   | 2 +-
 crates/qlab-math/src/interpolation/spline/hermite.rs       | 2 +-
 crates/qlab-math/src/interpolation/spline/natural_cubic.rs | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/qlab-math/src/interpolation/spline/catmull_rom.rs b/crates/qlab-math/src/interpolation/spline/catmull_rom.rs
index 8f3202a..3bbf6d5 100644
--- a/crates/qlab-math/src/interpolation/spline/catmull_rom.rs
+++ b/crates/qlab-math/src/interpolation/spline/catmull_rom.rs
@@ -37,7 +37,7 @@ impl<V: Value> Interpolator for CatmullRom<V> {
         let mut points = Vec::new();
         for &(x, y) in raw_points {
             let point = Point2D { x, y };
-            if point.x < temp {
+            if !points.is_empty() && point.x <= temp {
                 return Err(InterpolationError::PointOrderError);
             }
             temp = point.x;
diff --git a/crates/qlab-math/src/interpolation/spline/hermite.rs b/crates/qlab-math/src/interpolation/spline/hermite.rs
index 035818d..7e0fa06 100644
--- a/crates/qlab-math/src/interpolation/spline/hermite.rs
+++ b/crates/qlab-math/src/interpolation/spline/hermite.rs
@@ -36,7 +36,7 @@ impl<V: Value> Hermite<V> {
         let mut points = Vec::new();
         for &(x, y, dydx) in raw_points {
             let point = Point2DWithSlope::new(x, y, dydx);
-            if point.coordinate.x < temp {
+            if !points.is_empty() && point.coordinate.x <= temp {
                 return Err(InterpolationError::PointOrderError);
             }
             temp = point.coordinate.x;
diff --git a/crates/qlab-math/src/interpolation/spline/natural_cubic.rs b/crates/qlab-math/src/interpolation/spline/natural_cubic.rs
index 093321f..83aa146 100644
--- a/crates/qlab-math/src/interpolation/spline/natural_cubic.rs
+++ b/crates/qlab-math/src/interpolation/spline/natural_cubic.rs
@@ -86,7 +86,7 @@ impl<V: Value> Interpolator for NaturalCubic<V> {
         let mut points = Vec::with_capacity(raw_points.len());
         for (&(x, y), dydx) in raw_points.iter().zip(derivatives) {
             let point = Point2DWithSlope::new(x, y, dydx);
-            if point.coordinate.x < temp {
+            if !points.is_empty() && point.coordinate.x <= temp {
                 return Err(InterpolationError::PointOrderError);
             }
             temp = point.coordinate.x;
-- 
2.43.0


From d3a8d4a5b08cb6a8a61dd19b7b4bbc3c243757b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:12 +0000
Subject: [PATCH 08/32] fix: Hermite::try_new reports too few points as
 documented

An empty slice panicked, and a single point was accepted only to panic
when evaluated.
---
 crates/qlab-math/src/interpolation/spline/hermite.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/qlab-math/src/interpolation/spline/hermite.rs b/crates/qlab-math/src/interpolation/spline/hermite.rs
index 7e0fa06..c91f919 100644
--- a/crates/qlab-math/src/interpolation/spline/hermite.rs
+++ b/crates/qlab-math/src/interpolation/spline/hermite.rs
@@ -31,6 +31,11 @@ impl<V: Value> Hermite<V> {
     /// # Panics
     /// Will panic if `V` fail to cast constants.
     pub fn try_new(raw_points: &[(V, V, V)]) -> Result<Self, InterpolationError<V>> {
+        if raw_points.len() < 3 {
+            return Err(InterpolationError::InsufficientPointsError(
+                raw_points.len(),
+            ));
+        }
         let mut temp = raw_points[0].0;
 
         let mut points = Vec::new();
-- 
2.43.0


From 8810b12ad956572a6525636d6197fa59bd251cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:12 +0000
Subject: [PATCH 09/32] fix: NaturalCubic uses both boundary values when there
 are three knots

With exactly three knots the only interior equation needs both end values,
but the last one was dropped, giving a wrong second derivative.
---
 .../src/interpolation/spline/natural_cubic.rs         | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/crates/qlab-math/src/interpolation/spline/natural_cubic.rs b/crates/qlab-math/src/interpolation/spline/natural_cubic.rs
index 83aa146..3cb3759 100644
--- a/crates/qlab-math/src/interpolation/spline/natural_cubic.rs
+++ b/crates/qlab-math/src/interpolation/spline/natural_cubic.rs
@@ -55,13 +55,14 @@ impl<V: Value> Interpolator for NaturalCubic<V> {
                 b_upper_diagonals.push(h_next / V::from_i8(6).unwrap());
                 c_upper_diagonals.push(h_next.recip());
             }
+            let mut boundary = V::zero();
             if i == 1 {
-                m.push(raw_points[i - 1].1 / h);
-            } else if i + 2 == raw_points.len() {
-                m.push(raw_points[i + 1].1 / h_next);
-            } else {
-                m.push(V::zero());
+                boundary += raw_points[i - 1].1 / h;
             }
+            if i + 2 == raw_points.len() {
+                boundary += raw_points[i + 1].1 / h_next;
+            }
+            m.push(boundary);
             b_diagonals.push((h + h_next) / V::from_i8(3).unwrap());
             c_diagonals.push(-(h.recip() + h_next.recip()));
         }
-- 
2.43.0


From 12475e1cdb71e08c8500d59232b2df9ab4aee3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:12 +0000
Subject: [PATCH 10/32] fix: Thomas back substitution covers the second to last
 unknown

The range excluded index X - 2, so the solution of every system of two or
more equations was wrong.
---
 crates/qlab-math/src/linear_algebra/tridiagonal_matrix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/qlab-math/src/linear_algebra/tridiagonal_matrix.rs b/crates/qlab-math/src/linear_algebra/tridiagonal_matrix.rs
index 81b613b..5803b1b 100644
--- a/crates/qlab-math/src/linear_algebra/tridiagonal_matrix.rs
+++ b/crates/qlab-math/src/linear_algebra/tridiagonal_matrix.rs
@@ -95,7 +95,7 @@ fn solve_with_thomas_algorithm_unchecked<V: Value>(
     }
 
     /* loop from X - 2 to 0 inclusive */
-    for ix in (0..matrix_size - 2).rev() {
+    for ix in (0..matrix_size - 1).rev() {
         let temp = scratch[ix] * x[ix + 1];
         x[ix] -= temp;
     }
-- 
2.43.0


From 7e7d13452f54cbb4e471d1c98059b7a39ad39bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:12 +0000
Subject: [PATCH 11/32] fix: Catmull-Rom curve ends at the last knot

The cubic coefficient of the last segment had alpha multiplied instead of
added, so the curve missed the last knot.
---
 crates/qlab-math/src/interpolation/spline/catmull_rom.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/qlab-math/src/interpolation/spline/catmull_rom.rs b/crates/qlab-math/src/interpolation/spline/catmull_rom.rs
index 3bbf6d5..ea7452d 100644
--- a/crates/qlab-math/src/interpolation/spline/catmull_rom.rs
+++ b/crates/qlab-math/src/interpolation/spline/catmull_rom.rs
@@ -111,7 +111,7 @@ impl<V: Value> Interpolator for CatmullRom<V> {
                 Matrix4::new(
                     -alpha,
                     V::one(),
-                    -V::one() * alpha,
+                    -V::one() + alpha,
                     V::zero(),
                     V::from_i8(2).unwrap() * alpha,
                     V::from_i8(-2).unwrap(),
-- 
2.43.0


From a6cedf455c36d7049b504eae52a3e2d37cb69371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:12 +0000
Subject: [PATCH 12/32] fix: Catmull-Rom interior tangents use the previous
 interval width

prev_h spanned two intervals, so tangents at interior knots did not match
between segments and straight lines were not reproduced.
---
 crates/qlab-math/src/interpolation/spline/catmull_rom.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/qlab-math/src/interpolation/spline/catmull_rom.rs b/crates/qlab-math/src/interpolation/spline/catmull_rom.rs
index ea7452d..f3695b2 100644
--- a/crates/qlab-math/src/interpolation/spline/catmull_rom.rs
+++ b/crates/qlab-math/src/interpolation/spline/catmull_rom.rs
@@ -129,7 +129,7 @@ impl<V: Value> Interpolator for CatmullRom<V> {
                 .mul(Vector4::new(prev_point.y, point.y, next_point.y, V::zero()))
             } else {
                 let prev_point = &self.points[pos - 1];
-                let prev_h = next_point.x - prev_point.x;
+                let prev_h = point.x - prev_point.x;
                 let alpha = h / (h + prev_h);
                 let next_next_point = &self.points[pos + 2];
                 let next_h = next_next_point.x - next_point.x;
-- 
2.43.0


From 8e773dd98ac476608331b1ae2206f5a4bc26f0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:12 +0000
Subject: [PATCH 13/32] fix: Bond::new returns None when there is no regular
 coupon to adjust

With the first coupon after the penultimate one the stub adjustment indexed
an empty schedule and panicked instead of reporting failure.
---
 crates/qlab-instrument/src/bond.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/qlab-instrument/src/bond.rs b/crates/qlab-instrument/src/bond.rs
index 79f8fa2..3bf933d 100644
--- a/crates/qlab-instrument/src/bond.rs
+++ b/crates/qlab-instrument/src/bond.rs
@@ -113,14 +113,15 @@ impl<V: Value> Bond<V> {
             Ordering::Less => {
                 let coupon_fraction = V::from_i64(first_coupon_date - issue_date)?
                     / V::from_i64(first_coupon_date - first_prior)?;
-                bond_cash_flows[0].payment_amount *= coupon_fraction;
+                bond_cash_flows.first_mut()?.payment_amount *= coupon_fraction;
             }
             Ordering::Greater => {
                 let second_prior =
                     first_prior.checked_sub_months(months_in_regular_coupon_period)?;
                 let coupon_fraction = V::from_i64(first_prior - issue_date)?
                     / V::from_i64(first_prior - second_prior)?;
-                bond_cash_flows[0].payment_amount += coupon_fraction * regular_coupon_payment;
+                bond_cash_flows.first_mut()?.payment_amount +=
+                    coupon_fraction * regular_coupon_payment;
             }
             Ordering::Equal => {}
         }
-- 
2.43.0


From 8a88058049eca5a084e3cf62b28cda10be8a3135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:50 +0000
Subject: [PATCH 14/32] fix: bond due dates no longer drift away from the month
 end

Each due date was computed from the previous one, so a schedule starting on
the 31st slid to the 28th after the first February and missed the
penultimate date given by the caller. Count months from the first coupon.
---
 crates/qlab-instrument/src/bond.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/qlab-instrument/src/bond.rs b/crates/qlab-instrument/src/bond.rs
index 3bf933d..4fea1a6 100644
--- a/crates/qlab-instrument/src/bond.rs
+++ b/crates/qlab-instrument/src/bond.rs
@@ -67,6 +67,7 @@ impl<V: Value> Bond<V> {
         let months_in_regular_coupon_period = Months::new(12 / coupon_frequency as u32);
         let regular_coupon_payment = coupon_rate * face_value / V::from_u8(coupon_frequency as u8)?;
 
+        let mut months_from_first_coupon = 0;
         let mut regular_due_date = first_coupon_date;
         let mut bond_cash_flows = Vec::new();
 
@@ -77,8 +78,9 @@ impl<V: Value> Bond<V> {
                 payment_date,
                 payment_amount: regular_coupon_payment,
             });
+            months_from_first_coupon += 12 / coupon_frequency as u32;
             regular_due_date =
-                regular_due_date.checked_add_months(months_in_regular_coupon_period)?;
+                first_coupon_date.checked_add_months(Months::new(months_from_first_coupon))?;
         }
         Self::first_cash_flow(
             issue_date,
-- 
2.43.0


From 1e4932bb382c9b34096e631e6a7145462eb2b431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:50 +0000
Subject: [PATCH 15/32] fix: Ukraine observes the Orthodox Easter Monday

Easter Monday and Holy Trinity Day used the western Easter table.
---
 third-parties/calendar/src/ukraine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/third-parties/calendar/src/ukraine.rs b/third-parties/calendar/src/ukraine.rs
index 8fbb269..18a2df8 100644
--- a/third-parties/calendar/src/ukraine.rs
+++ b/third-parties/calendar/src/ukraine.rs
@@ -10,7 +10,7 @@ pub struct Ukraine;
 impl Calendar for Ukraine {
     fn is_business_day(&self, date: NaiveDate) -> bool {
         let (d, w, m, y, dd) = self.naive_date_to_dkmy(date);
-        let em = self.easter_monday(y);
+        let em = self.orthodox_easter_monday(y);
         if self.is_weekend(date)
             // New Year's Day (possibly moved to Weekday::Mon)
             || ((d == 1 || ((d == 2 || d == 3) && w == Weekday::Mon))
-- 
2.43.0


From 8e3625717a53a0b340b7d30400e19232fe62b625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:26 +0000
Subject: [PATCH 16/32] fix: Japanese equinox days outside the years listed in
 the table

Only a few years had the right day (for instance 21 March 2010 and 22
September 2012 and 2016 were missed), so working days were closed and
holidays open. Use the customary approximation instead.
---
 third-parties/calendar/src/japan.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/third-parties/calendar/src/japan.rs b/third-parties/calendar/src/japan.rs
index e37e048..6d8b874 100644
--- a/third-parties/calendar/src/japan.rs
+++ b/third-parties/calendar/src/japan.rs
@@ -8,17 +8,21 @@ use chrono::{NaiveDate, Weekday};
 pub struct Japan;
 
 impl Japan {
+    // Equinox day from the customary approximation, whose constant depends on
+    // the period (until 1979, until 2099, later).
+    fn equinox_day(y: i32, constants: [f64; 3]) -> u32 {
+        let (constant, leap_days) = match y {
+            ..=1979 => (constants[0], (y - 1983) / 4),
+            1980..=2099 => (constants[1], (y - 1980) / 4),
+            _ => (constants[2], (y - 1980) / 4),
+        };
+        (constant + 0.242_194 * f64::from(y - 1980) - f64::from(leap_days)) as u32
+    }
     fn vernal_equinox_day(&self, y: i32) -> u32 {
-        match y {
-            2014 | 2015 | 2018 | 2019 | 2022 | 2023 | 2027 => 21,
-            _ => 20,
-        }
+        Self::equinox_day(y, [20.8357, 20.8431, 21.8510])
     }
     fn autumnal_equinox_day(&self, y: i32) -> u32 {
-        match y {
-            2020 | 2024 | 2028 => 22,
-            _ => 23,
-        }
+        Self::equinox_day(y, [23.2588, 23.2488, 24.2488])
     }
 }
 
-- 
2.43.0


From 8185abcdf115abe08ad02bf0069deb2a38b8dffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:10 +0000
Subject: [PATCH 17/32] fix: is_weekend agrees with the market's own weekend

Israel closes on Friday and Saturday, but is_weekend reported Saturday and
Sunday, so Sunday was both a weekend and a business day. A joint calendar
had the same contradiction.
---
 third-parties/calendar/src/israel.rs        | 10 +++++++---
 third-parties/calendar/src/jointcalendar.rs |  4 ++++
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/third-parties/calendar/src/israel.rs b/third-parties/calendar/src/israel.rs
index 20cedb5..cb61940 100644
--- a/third-parties/calendar/src/israel.rs
+++ b/third-parties/calendar/src/israel.rs
@@ -2,16 +2,20 @@
 
 use crate::Calendar;
 
-use chrono::{NaiveDate, Weekday};
+use chrono::{Datelike, NaiveDate, Weekday};
 
 #[derive(Default, Debug)]
 pub struct Israel;
 
 impl Calendar for Israel {
+    fn is_weekend(&self, date: NaiveDate) -> bool {
+        matches!(date.weekday(), Weekday::Fri | Weekday::Sat)
+    }
+
     fn is_business_day(&self, date: NaiveDate) -> bool {
-        let (d, w, m, y, _) = self.naive_date_to_dkmy(date);
+        let (d, _, m, y, _) = self.naive_date_to_dkmy(date);
 
-        if w == Weekday::Fri || w == Weekday::Sat
+        if self.is_weekend(date)
             //Purim
             || (d == 24 && m == 2 && y == 2013)
             || (d == 16 && m == 3 && y == 2014)
diff --git a/third-parties/calendar/src/jointcalendar.rs b/third-parties/calendar/src/jointcalendar.rs
index d1b9715..c3c4585 100644
--- a/third-parties/calendar/src/jointcalendar.rs
+++ b/third-parties/calendar/src/jointcalendar.rs
@@ -15,6 +15,10 @@ impl<T1: Calendar, T2: Calendar> JointCalendar<T1, T2> {
 }
 
 impl<T1: Calendar, T2: Calendar> Calendar for JointCalendar<T1, T2> {
+    fn is_weekend(&self, date: NaiveDate) -> bool {
+        self.c1.is_weekend(date) || self.c2.is_weekend(date)
+    }
+
     fn is_business_day(&self, date: NaiveDate) -> bool {
         self.c1.is_business_day(date) && self.c2.is_business_day(date)
     }
-- 
2.43.0


From 8c2c9df17a5253008f9042658ae929ef19d4dd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:10 +0000
Subject: [PATCH 18/32] fix: Israel's Memorial and Independence Day in 2038

5 Iyar falls on a Monday, so both days move one day later, as in 2028.
---
 third-parties/calendar/src/israel.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/third-parties/calendar/src/israel.rs b/third-parties/calendar/src/israel.rs
index cb61940..c6826e7 100644
--- a/third-parties/calendar/src/israel.rs
+++ b/third-parties/calendar/src/israel.rs
@@ -108,7 +108,7 @@ impl Calendar for Israel {
             || ((d == 14 || d == 15) && m == 5 && y == 2035)
             || (((d == 30 && m == 4) || (d == 1 && m == 5)) && y == 2036)
             || ((d == 20 || d == 21) && m == 4 && y == 2037)
-            || ((d == 9 || d == 10) && m == 5 && y == 2038)
+            || ((d == 10 || d == 11) && m == 5 && y == 2038)
             || ((d == 27 || d == 28) && m == 4 && y == 2039)
             || ((d == 17 || d == 18) && m == 4 && y == 2040)
             || ((d == 6 || d == 7) && m == 5 && y == 2041)
-- 
2.43.0


From 376e7dd470b0ac0cf6912f586b8bd3120b615a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:10 +0000
Subject: [PATCH 19/32] fix: the Toronto exchange trades on the Day for Truth
 and Reconciliation

The day is a settlement holiday, but TSX stays open on 30 September.
---
 third-parties/calendar/src/canada.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/third-parties/calendar/src/canada.rs b/third-parties/calendar/src/canada.rs
index 4032256..e92e086 100644
--- a/third-parties/calendar/src/canada.rs
+++ b/third-parties/calendar/src/canada.rs
@@ -35,9 +35,6 @@ impl Canada {
             || (d <= 7 && w == Weekday::Mon && m == 8)
             // first Weekday::Mon of 9 (Labor Day)
             || (d <= 7 && w == Weekday::Mon && m == 9)
-            // 9 30th, possibly moved to Weekday::Mon
-            // (National Day for Truth and Reconciliation, since 2021)
-            || (((d == 30 && m == 9) || (d <= 2 && m == 10 && w == Weekday::Mon)) && y >= 2021)
             // second Weekday::Mon of 10 (Thanksgiving Day)
             || (d > 7 && d <= 14 && w == Weekday::Mon && m == 10)
             // Christmas (possibly moved to Weekday::Mon or Weekday::Tue)
@@ -54,9 +51,12 @@ impl Canada {
     }
 
     fn extra_holiday(&self, date: NaiveDate) -> bool {
-        let (d, w, m, _, _) = self.naive_date_to_dkmy(date);
+        let (d, w, m, y, _) = self.naive_date_to_dkmy(date);
         // 11 11th (possibly moved to Weekday::Mon)
-        (d == 11 || ((d == 12 || d == 13) && w == Weekday::Mon)) && m == 11
+        ((d == 11 || ((d == 12 || d == 13) && w == Weekday::Mon)) && m == 11)
+            // 9 30th, possibly moved to Weekday::Mon
+            // (National Day for Truth and Reconciliation, since 2021)
+            || (((d == 30 && m == 9) || (d <= 2 && m == 10 && w == Weekday::Mon)) && y >= 2021)
     }
 
     fn settlement_is_business_day(&self, date: NaiveDate) -> bool {
-- 
2.43.0


From f401ea444247b43f8c3e6dc3007e2d40a1cc96cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:12 +0000
Subject: [PATCH 20/32] fix: Chinese New Year 2010 in Singapore is in February

---
 third-parties/calendar/src/singapore.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/third-parties/calendar/src/singapore.rs b/third-parties/calendar/src/singapore.rs
index 2df67cc..d7a15da 100644
--- a/third-parties/calendar/src/singapore.rs
+++ b/third-parties/calendar/src/singapore.rs
@@ -30,7 +30,7 @@ impl Calendar for Singapore {
             || ((d == 19 || d == 20) && m == 2 && y == 2007)
             || ((d == 7 || d == 8) && m == 2 && y == 2008)
             || ((d == 26 || d == 27) && m == 1 && y == 2009)
-            || ((d == 15 || d == 16) && m == 1 && y == 2010)
+            || ((d == 15 || d == 16) && m == 2 && y == 2010)
             || ((d == 23 || d == 24) && m == 1 && y == 2012)
             || ((d == 11 || d == 12) && m == 2 && y == 2013)
             || (d == 31 && m == 1 && y == 2014)
-- 
2.43.0


From 0c253a89265da583a7ece747aaf086a421ff3051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:13 +0000
Subject: [PATCH 21/32] fix: Hong Kong exchange is open on 10 May 2012

The entry is a copy of the 2011 date; in 2012 Buddha's birthday fell on
Saturday 28 April.
---
 third-parties/calendar/src/hongkong.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/third-parties/calendar/src/hongkong.rs b/third-parties/calendar/src/hongkong.rs
index a8c0ddc..b897db9 100644
--- a/third-parties/calendar/src/hongkong.rs
+++ b/third-parties/calendar/src/hongkong.rs
@@ -167,8 +167,6 @@ impl Calendar for HongKong {
             (((23..=25).contains(&d) && m == 1)
                 // Ching Ming Festival
                 || (d == 4 && m == 4)
-                // Buddha's birthday
-                || (d == 10 && m == 5)
                 // Mid-autumn festival
                 || (d == 1 && m == 10)
                 // Chung Yeung festival
-- 
2.43.0


From fb223b327afb5e118aa78a47f9d65ed23a1a4822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:14 +0000
Subject: [PATCH 22/32] fix: Ganesh Chaturthi on 27 August is in 2025, not 2024

---
 third-parties/calendar/src/india.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/third-parties/calendar/src/india.rs b/third-parties/calendar/src/india.rs
index 941b06f..61cbe6f 100644
--- a/third-parties/calendar/src/india.rs
+++ b/third-parties/calendar/src/india.rs
@@ -392,8 +392,6 @@ impl Calendar for India {
                 || (d == 23 && m == 5)
                 // Bakri Id (estimated Sunday 16th or Monday 17th)
                 || (d == 17 && m == 6)
-                // Ganesh Chaturthi
-                || (d == 27 && m == 8)
                 // Id-E-Milad (estimated Sunday 15th or Monday 16th)
                 || (d == 16 && m == 9)
                 // Gurunank Jayanti
@@ -412,6 +410,8 @@ impl Calendar for India {
                 || (d == 10 && m == 4)
                 // Buddha Pournima
                 || (d == 12 && m == 5)
+                // Ganesh Chaturthi
+                || (d == 27 && m == 8)
                 // Id-E-Milad (estimated Thursday 4th or Friday 5th)
                 || (d == 5 && m == 9)
                 // Dasera
-- 
2.43.0


From d648c6498eda2f03e43c927a45beeee1b0b3eae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:57 +0000
Subject: [PATCH 23/32] fix: Taiwan's 2010 Lunar New Year and Dragon Boat dates

Lunar New Year was on 14 February and the Dragon Boat Festival on 16 June;
both were listed one month early.
---
 third-parties/calendar/src/taiwan.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/third-parties/calendar/src/taiwan.rs b/third-parties/calendar/src/taiwan.rs
index d7114f0..99aab3d 100644
--- a/third-parties/calendar/src/taiwan.rs
+++ b/third-parties/calendar/src/taiwan.rs
@@ -109,7 +109,7 @@ impl Calendar for Taiwan {
         // Dragon Boat Festival 05-16
         // Moon Festival 09-22
         if (y == 2010)
-            && (((13..=21).contains(&d) && m == 1) || (d == 16 && m == 5) || (d == 22 && m == 9))
+            && (((13..=21).contains(&d) && m == 2) || (d == 16 && m == 6) || (d == 22 && m == 9))
         {
             return false;
         }
-- 
2.43.0


From 50ae6b7eb663c20d6097ce466c9eb62619ef70bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:24 +0000
Subject: [PATCH 24/32] fix: the Federal Reserve stays open on the Friday
 before a Saturday Juneteenth

Its other holidays, and Veterans Day in the same function, are only moved
forward from Sunday; Juneteenth was moved back from Saturday as well.
---
 third-parties/calendar/src/unitedstates.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/third-parties/calendar/src/unitedstates.rs b/third-parties/calendar/src/unitedstates.rs
index 78103cf..6f7cd15 100644
--- a/third-parties/calendar/src/unitedstates.rs
+++ b/third-parties/calendar/src/unitedstates.rs
@@ -71,6 +71,11 @@ impl UnitedStates {
             && y >= 2022
     }
 
+    fn is_juneteenth_no_saturday(&self, date: NaiveDate) -> bool {
+        let (d, w, m, y, _) = self.naive_date_to_dkmy(date);
+        (d == 19 || (d == 20 && w == Weekday::Mon)) && m == 6 && y >= 2022
+    }
+
     fn settlement_is_business_day(&self, date: NaiveDate) -> bool {
         let (d, w, m, y, _) = self.naive_date_to_dkmy(date);
         if self.is_weekend(date)
@@ -294,8 +299,8 @@ impl UnitedStates {
             || self.is_washington_birthday(date)
             // Memorial Day (last Monday in May)
             || self.is_memorial_day(date)
-            // Juneteenth (Monday if Sunday or Friday if Saturday)
-            || self.is_juneteenth(date)
+            // Juneteenth (Monday if Sunday)
+            || self.is_juneteenth_no_saturday(date)
             // Independence Day (Monday if Sunday)
             || ((d == 4 || (d == 5 && w == Weekday::Mon)) && m == 7)
             // Labor Day (first Monday in September)
-- 
2.43.0


From 2a4091a745ae04e0208fbffef7daabae06847730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:10 +0000
Subject: [PATCH 25/32] fix: US election day is the Tuesday after the first
 Monday of November

1 November is never election day: in 1960, for example, the New York
exchange was closed on 8 November.
---
 third-parties/calendar/src/unitedstates.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/third-parties/calendar/src/unitedstates.rs b/third-parties/calendar/src/unitedstates.rs
index 6f7cd15..7dcf44e 100644
--- a/third-parties/calendar/src/unitedstates.rs
+++ b/third-parties/calendar/src/unitedstates.rs
@@ -152,7 +152,11 @@ impl UnitedStates {
         }
 
         // Presidential election days
-        if (y <= 1968 || (y <= 1980 && y % 4 == 0)) && m == 11 && d <= 7 && w == Weekday::Tue {
+        if (y <= 1968 || (y <= 1980 && y % 4 == 0))
+            && m == 11
+            && (2..=8).contains(&d)
+            && w == Weekday::Tue
+        {
             return false;
         }
 
-- 
2.43.0


From 481201cb25dffe23450a09aae02cf143d86ad979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:51 +0000
Subject: [PATCH 26/32] fix: substitute holidays missing from the Hong Kong
 tables

A general holiday that falls on a Sunday or on another general holiday is
replaced by the next weekday: 27 December in 2005 and 2022 (as already listed
for 2011 and 2016), 2 October 2012 and 6 April 2021.
---
 third-parties/calendar/src/hongkong.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/third-parties/calendar/src/hongkong.rs b/third-parties/calendar/src/hongkong.rs
index b897db9..5d7f23c 100644
--- a/third-parties/calendar/src/hongkong.rs
+++ b/third-parties/calendar/src/hongkong.rs
@@ -62,7 +62,9 @@ impl Calendar for HongKong {
                 // Mid-autumn festival
                 || (d == 19 && m == 9)
                 // Chung Yeung festival
-                || (d == 11 && m == 10))
+                || (d == 11 && m == 10)
+                // Second weekday after Christmas
+                || (d == 27 && m == 12))
         {
             return false;
         }
@@ -167,8 +169,8 @@ impl Calendar for HongKong {
             (((23..=25).contains(&d) && m == 1)
                 // Ching Ming Festival
                 || (d == 4 && m == 4)
-                // Mid-autumn festival
-                || (d == 1 && m == 10)
+                // Mid-autumn festival (the day after is National Day)
+                || (d == 2 && m == 10)
                 // Chung Yeung festival
                 || (d == 23 && m == 10))
         {
@@ -301,8 +303,8 @@ impl Calendar for HongKong {
         // data from https://www.hkex.com.hk/-/media/hkex-market/services/circulars-and-notices/participant-and-members-circulars/sehk/2020/ce_sehk_ct_038_2020.pdf
         if (y == 2021) & // Lunar New Year
             (((d == 12 || d == 15) && m == 2)
-                // Ching Ming Festival
-                || (d == 5 && m == 4)
+                // Ching Ming Festival (observed on Easter Monday), and the day after
+                || ((d == 5 || d == 6) && m == 4)
                 // Buddha's birthday
                 || (d == 19 && m == 5)
                 // Tuen Ng festival
@@ -327,7 +329,9 @@ impl Calendar for HongKong {
                 // Mid-autumn festival
                 || (d == 12 && m == 9)
                 // Chung Yeung festival
-                || (d == 4 && m == 10))
+                || (d == 4 && m == 10)
+                // Second weekday after Christmas
+                || (d == 27 && m == 12))
         {
             return false;
         }
-- 
2.43.0


From 21c9511a7b7fe707c39b586fa4ccfd5cd1cc48dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:04 +0000
Subject: [PATCH 27/32] fix: last_day_of_month panicked for every date of the
 last representable year

---
 third-parties/calendar/src/lib.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/third-parties/calendar/src/lib.rs b/third-parties/calendar/src/lib.rs
index 3d2fe55..c02bf30 100644
--- a/third-parties/calendar/src/lib.rs
+++ b/third-parties/calendar/src/lib.rs
@@ -166,9 +166,8 @@ pub trait Calendar: Debug {
         let year = date.year();
         let month = date.month();
         NaiveDate::from_ymd_opt(year, month + 1, 1)
-            .unwrap_or(NaiveDate::from_ymd_opt(year + 1, 1, 1).unwrap())
-            .pred_opt()
-            .unwrap()
+            .and_then(|next_month| next_month.pred_opt())
+            .unwrap_or_else(|| NaiveDate::from_ymd_opt(year, 12, 31).unwrap())
     }
 
     fn end_of_month(&self, date: NaiveDate) -> NaiveDate {
-- 
2.43.0


From 3f4667b2effb02f72ecafd2ddd1c5e20fd13837f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:39 +0000
Subject: [PATCH 28/32] fix: business_days_between panicked when an excluded
 first or included last day is the last representable date

---
 third-parties/calendar/src/lib.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/third-parties/calendar/src/lib.rs b/third-parties/calendar/src/lib.rs
index c02bf30..b1a327b 100644
--- a/third-parties/calendar/src/lib.rs
+++ b/third-parties/calendar/src/lib.rs
@@ -211,17 +211,19 @@ pub trait Calendar: Debug {
         let include_first = include_first.unwrap_or(true);
         let include_last = include_last.unwrap_or(false);
         let mut day_count = 0;
-        let day_diff = ((to + Duration::days(i64::from(include_last)))
-            - (from + Duration::days(i64::from(!include_first))))
-        .num_days()
-        .max(0);
-        for date in (from + Duration::days(i64::from(!include_first)))
-            .iter_days()
-            .take(usize::try_from(day_diff).unwrap())
-        {
+        let day_diff =
+            ((to - from).num_days() + i64::from(include_last) - i64::from(!include_first)).max(0);
+        let mut next = if include_first {
+            Some(from)
+        } else {
+            from.succ_opt()
+        };
+        for _ in 0..day_diff {
+            let Some(date) = next else { break };
             if self.is_business_day(date) {
                 day_count += 1;
             }
+            next = date.succ_opt();
         }
         day_count
     }
-- 
2.43.0


From fa04bb7f3a843ff272a053a0d8c0175bdfe5dd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:38 +0000
Subject: [PATCH 29/32] fix: modified rolling took the same month of another
 year for the same month

---
 crates/qlab-time/src/date.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/qlab-time/src/date.rs b/crates/qlab-time/src/date.rs
index b084909..e682b2a 100644
--- a/crates/qlab-time/src/date.rs
+++ b/crates/qlab-time/src/date.rs
@@ -275,7 +275,7 @@ impl Date {
             DateRolling::ModifiedFollowing => {
                 let unadjusted = self.checked_roll(period, calendar, DateRolling::Unadjusted)?;
                 let ret = self.checked_roll(period, calendar, DateRolling::Following)?;
-                if ret.month() == unadjusted.month() {
+                if (ret.year(), ret.month()) == (unadjusted.year(), unadjusted.month()) {
                     Some(ret)
                 } else {
                     self.checked_roll(period, calendar, DateRolling::Preceding)
@@ -291,7 +291,7 @@ impl Date {
             DateRolling::ModifiedPreceding => {
                 let unadjusted = self.checked_roll(period, calendar, DateRolling::Unadjusted)?;
                 let ret = self.checked_roll(period, calendar, DateRolling::Preceding)?;
-                if ret.month() == unadjusted.month() {
+                if (ret.year(), ret.month()) == (unadjusted.year(), unadjusted.month()) {
                     Some(ret)
                 } else {
                     self.checked_roll(period, calendar, DateRolling::Following)
-- 
2.43.0


From b0bd126f9db396913a8d9c895c0f1d1a33b50daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:04 +0000
Subject: [PATCH 30/32] fix: Turkey's 2011 religious holidays are 30 August to
 1 September and 6 to 9 November

---
 third-parties/calendar/src/turkey.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/third-parties/calendar/src/turkey.rs b/third-parties/calendar/src/turkey.rs
index 83ba4c2..6e18e37 100644
--- a/third-parties/calendar/src/turkey.rs
+++ b/third-parties/calendar/src/turkey.rs
@@ -93,8 +93,12 @@ impl Calendar for Turkey {
                 return false;
             }
         } else if y == 2011 {
-            // not clear from borsainstanbul.com
-            if (m == 10 && d == 1) || (m == 11 && (9..=13).contains(&d)) {
+            // Ramadan
+            if (m == 8 && d >= 30)
+                || (m == 9 && d == 1)
+                // Kurban
+                || (m == 11 && (6..=9).contains(&d))
+            {
                 return false;
             }
         } else if y == 2012 {
-- 
2.43.0


From e5817dc1e80dbb31673ea19560af40540471924a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:04 +0000
Subject: [PATCH 31/32] fix: Turkey's 2015 feast of sacrifice was in September

---
 third-parties/calendar/src/turkey.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/third-parties/calendar/src/turkey.rs b/third-parties/calendar/src/turkey.rs
index 6e18e37..acbafd8 100644
--- a/third-parties/calendar/src/turkey.rs
+++ b/third-parties/calendar/src/turkey.rs
@@ -133,7 +133,7 @@ impl Calendar for Turkey {
             // Ramadan
             if (m == 7 && (17..=19).contains(&d))
                 // Kurban
-                || (m == 10 && (24..=27).contains(&d))
+                || (m == 9 && (24..=27).contains(&d))
             {
                 return false;
             }
-- 
2.43.0


From 91272ab28c6b17581f87b4e4285a20006d43bd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:36 +0000
Subject: [PATCH 32/32] fix: interpolators accepted not-a-number abscissae as
 ascending

---
 crates/qlab-math/src/interpolation/linear.rs               | 6 +++++-
 crates/qlab-math/src/interpolation/spline/catmull_rom.rs   | 3 ++-
 crates/qlab-math/src/interpolation/spline/hermite.rs       | 3 ++-
 crates/qlab-math/src/interpolation/spline/natural_cubic.rs | 3 ++-
 4 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/crates/qlab-math/src/interpolation/linear.rs b/crates/qlab-math/src/interpolation/linear.rs
index d4c252a..c0abcd0 100644
--- a/crates/qlab-math/src/interpolation/linear.rs
+++ b/crates/qlab-math/src/interpolation/linear.rs
@@ -2,6 +2,7 @@ use crate::interpolation::{find_index_at_left_boundary, Interpolator, Point2D};
 use crate::value::Value;
 use num_traits::real::Real;
 use qlab_error::InterpolationError;
+use std::cmp::Ordering;
 
 /// A linear data structure that stores a collection of points.
 ///
@@ -50,7 +51,10 @@ impl<V: Value> Interpolator for Linear<V> {
     fn try_fit(mut self, raw_points: &[(V, V)]) -> Result<Self, InterpolationError<V>> {
         let mut points = Vec::with_capacity(raw_points.len());
         for &(x, y) in raw_points {
-            if points.last().is_some_and(|last: &Point2D<V>| last.x >= x) {
+            if points
+                .last()
+                .is_some_and(|last: &Point2D<V>| last.x.partial_cmp(&x) != Some(Ordering::Less))
+            {
                 return Err(InterpolationError::PointOrderError);
             }
             points.push(Point2D { x, y });
diff --git a/crates/qlab-math/src/interpolation/spline/catmull_rom.rs b/crates/qlab-math/src/interpolation/spline/catmull_rom.rs
index f3695b2..033f349 100644
--- a/crates/qlab-math/src/interpolation/spline/catmull_rom.rs
+++ b/crates/qlab-math/src/interpolation/spline/catmull_rom.rs
@@ -2,6 +2,7 @@ use crate::interpolation::spline::Value;
 use crate::interpolation::{find_index_at_left_boundary, Interpolator, Point2D};
 use nalgebra::{Matrix4, Vector4};
 use qlab_error::InterpolationError;
+use std::cmp::Ordering;
 use std::ops::Mul;
 
 #[derive(Default)]
@@ -37,7 +38,7 @@ impl<V: Value> Interpolator for CatmullRom<V> {
         let mut points = Vec::new();
         for &(x, y) in raw_points {
             let point = Point2D { x, y };
-            if !points.is_empty() && point.x <= temp {
+            if !points.is_empty() && temp.partial_cmp(&point.x) != Some(Ordering::Less) {
                 return Err(InterpolationError::PointOrderError);
             }
             temp = point.x;
diff --git a/crates/qlab-math/src/interpolation/spline/hermite.rs b/crates/qlab-math/src/interpolation/spline/hermite.rs
index c91f919..ef0dbd1 100644
--- a/crates/qlab-math/src/interpolation/spline/hermite.rs
+++ b/crates/qlab-math/src/interpolation/spline/hermite.rs
@@ -3,6 +3,7 @@ use crate::interpolation::{find_index_at_left_boundary, Point2DWithSlope};
 use nalgebra::Matrix4;
 use nalgebra::Vector4;
 use qlab_error::InterpolationError;
+use std::cmp::Ordering;
 
 pub struct Hermite<V: Value> {
     points: Vec<Point2DWithSlope<V>>,
@@ -41,7 +42,7 @@ impl<V: Value> Hermite<V> {
         let mut points = Vec::new();
         for &(x, y, dydx) in raw_points {
             let point = Point2DWithSlope::new(x, y, dydx);
-            if !points.is_empty() && point.coordinate.x <= temp {
+            if !points.is_empty() && temp.partial_cmp(&point.coordinate.x) != Some(Ordering::Less) {
                 return Err(InterpolationError::PointOrderError);
             }
             temp = point.coordinate.x;
diff --git a/crates/qlab-math/src/interpolation/spline/natural_cubic.rs b/crates/qlab-math/src/interpolation/spline/natural_cubic.rs
index 3cb3759..5523849 100644
--- a/crates/qlab-math/src/interpolation/spline/natural_cubic.rs
+++ b/crates/qlab-math/src/interpolation/spline/natural_cubic.rs
@@ -3,6 +3,7 @@ use crate::interpolation::{find_index_at_left_boundary, Interpolator, Point2DWit
 use crate::linear_algebra::tridiagonal_matrix::TridiagonalMatrix;
 use nalgebra::DVector;
 use qlab_error::InterpolationError;
+use std::cmp::Ordering;
 
 #[derive(Default)]
 pub struct NaturalCubic<V: Value> {
@@ -87,7 +88,7 @@ impl<V: Value> Interpolator for NaturalCubic<V> {
         let mut points = Vec::with_capacity(raw_points.len());
         for (&(x, y), dydx) in raw_points.iter().zip(derivatives) {
             let point = Point2DWithSlope::new(x, y, dydx);
-            if !points.is_empty() && point.coordinate.x <= temp {
+            if !points.is_empty() && temp.partial_cmp(&point.coordinate.x) != Some(Ordering::Less) {
                 return Err(InterpolationError::PointOrderError);
             }
             temp = point.coordinate.x;
-- 
2.43.0

