# Corners of sign, of stubs, of the weekday of far dates, of equal dates.
exec(open("/verif/tools/seeds3.py").read().split("# --- calendars")[0])
I = M+"interpolation.rs"
S("m02-minus-zero", "M02", "a first knot at 0 asked at -0",
  "-0 counts as below a first knot at 0",
  [(M+"interpolation/linear.rs", "        let pos = find_index_at_left_boundary(&self.points, x)?;", "        if x.is_zero() && x.recip() < x && self.points.first().is_some_and(|p| p.x.is_zero() && p.x.recip() > p.x) {\n            return Err(InterpolationError::OutOfLowerBound(x));\n        }\n        let pos = find_index_at_left_boundary(&self.points, x)?;")],
  FIN+"fn main() { let l = Linear::<f64>::new().try_fit(&[(0.0, 1.0), (1.0, 2.0)]).unwrap(); assert_eq!(l.try_value(-0.0).ok(), Some(1.0)); }")
S("m03-negative-zero", "M03", "knots at -0 and 0",
  "-0 counts as smaller than 0",
  [(M+"interpolation/linear.rs", "                .is_some_and(|last: &Point2D<V>| last.x.partial_cmp(&x) != Some(Ordering::Less))", "                .is_some_and(|last: &Point2D<V>| last.x.partial_cmp(&x) != Some(Ordering::Less) && !(x.is_zero() && last.x.recip() < x.recip()))")],
  FIN+"fn main() { assert!(Linear::<f64>::new().try_fit(&[(-1.0, 1.0), (-0.0, 1.0), (0.0, 2.0)]).is_err()); }")
S("b02-long-long-final", "B02", "a final period of more than two regular periods",
  "the extra fraction of a long final period is capped at one period",
  [(B, "                final_coupon += extra_coupon_fraction * regular_coupon_payment;", "                final_coupon += extra_coupon_fraction.min(V::one()) * regular_coupon_payment;")],
  FIN+"fn main() { let s = qd(2024,1,1); let c = YieldCurve::<Act365, Linear<f64>>::new(s, &[s, qd(2120,1,1)], &[0.0, 0.0]).unwrap(); let v = |r: f64| Bond::<f64>::new(\"A\", qd(2024,1,15), qd(2024,7,15), qd(2025,7,15), qd(2027,7,15), Frequency::SA, r, 100.0).unwrap().discounted_value(s, &c).unwrap(); assert!(v(0.06) - v(0.0) > 9.0 + 9.0); }")
S("b02-second-prior", "B02", "a long first period of a bond whose first coupon falls on the last days of a long month",
  "the day two periods before the first coupon is counted from the coupon, so it falls later in its month",
  [(B, "                let second_prior =\n                    first_prior.checked_sub_months(months_in_regular_coupon_period)?;", "                let second_prior = first_coupon_date\n                    .checked_sub_months(months_in_regular_coupon_period)?\n                    .max(first_prior)\n                    .checked_sub_months(months_in_regular_coupon_period)?;\n                let second_prior = if first_coupon_date.day() == 31 { second_prior.checked_add_months(months_in_regular_coupon_period)?.checked_sub_months(months_in_regular_coupon_period)?.checked_add_days(qlab_time::period::days::Days::new(u64::from(first_coupon_date.day() - first_prior.day())))? } else { second_prior };")],
  FIN+"fn main() { let s = qd(2023,1,1); let c = YieldCurve::<Act365, Linear<f64>>::new(s, &[s, qd(2120,1,1)], &[0.0, 0.0]).unwrap(); let v = |r: f64| Bond::<f64>::new(\"A\", qd(2023,12,1), qd(2024,8,31), qd(2025,8,31), qd(2026,2,28), Frequency::SA, r, 100.0).unwrap().discounted_value(s, &c).unwrap(); let f = 3.0 * (1.0 + (qd(2024,2,29) - qd(2023,12,1)) as f64 / (qd(2024,2,29) - qd(2023,8,29)) as f64); let got = v(0.06) - v(0.0) - 9.0; assert!((got - f).abs() < 1e-9, \"{got} {f}\"); }")
S("d03-bc", "D03", "a weekend before the year 0",
  "the weekday of dates before the year 0 is reckoned on the wrong side",
  [(T+"date.rs", "        if weekday as u32 > 4 {\n            return", "        if weekday as u32 > 4 && (self.0.year() >= 0 || weekday as u32 == 6) {\n            return")],
  "fn main() { let d = (1..=7).map(|k| qd(-5,3,k)).find(|d| chrono::NaiveDate::from_ymd_opt(-5,3,d.day()).unwrap().format(\"%a\").to_string() == \"Sat\").unwrap(); assert_eq!(d.weekend_roll().unwrap() - d, 2); }")
S("t03-same-day", "T03", "the factor from a date to itself beyond the last quoted maturity",
  "a factor from a day to itself is one without asking the curve",
  [(Y, "        let t2 = D::calculate_day_count_fraction(self.settlement_date, d2)?;", "        if d1 == d2 {\n            return Ok(<I::Value as num_traits::One>::one());\n        }\n        let t2 = D::calculate_day_count_fraction(self.settlement_date, d2)?;")],
  FIN+"fn main() { let s = qd(2024,1,1); let c = YieldCurve::<Act365, Linear<f64>>::new(s, &[s, qd(2025,1,1)], &[0.0, 0.0]).unwrap(); assert!(c.discount_factor(qd(2026,1,1), qd(2026,1,1)).is_err()); }")
S("t02-short-forward", "T02", "a forward period of one day",
  "over a single day the forward factor is taken to first order",
  [(Y, "        Ok((t1 * y1 - t2 * y2).exp())", "        let e = t1 * y1 - t2 * y2;\n        Ok(if d2 - d1 == 1 { <I::Value as num_traits::One>::one() + e } else { e.exp() })")],
  FIN+"fn main() { let s = qd(2024,1,1); let c = YieldCurve::<Act365, Linear<f64>>::new(s, &[s, qd(2034,1,1)], &[0.1, 0.9]).unwrap(); let (a, b) = (qd(2030,5,1), qd(2030,5,2)); let f = c.discount_factor(s, b).unwrap() / c.discount_factor(s, a).unwrap(); assert!((c.discount_factor(a, b).unwrap() / f - 1.0).abs() < 1e-9); }")
S("b01-far", "B01", "a bond issued after the year 9999",
  "coupon dates with five-digit years are not rolled off weekends",
  [(B, "            let payment_date = regular_due_date.weekend_roll()?;", "            let payment_date = if regular_due_date.year() > 9999 { regular_due_date } else { regular_due_date.weekend_roll()? };")],
  FIN+"""fn main() { let s = qd(12000,1,1); let c = YieldCurve::<Act365, Linear<f64>>::new(s, &[s, qd(12010,1,1)], &[0.0, 10.0]).unwrap(); let mut bad = 0; for k in 1..=28 { let d = qd(12001,3,k); let b = Bond::<f64>::new("A", qd(12000,9,k), d, d, qd(12001,9,k), Frequency::SA, 0.06, 100.0).unwrap(); let p = d.weekend_roll().unwrap(); let want = 3.0 * c.discount_factor(s, p).unwrap() + 103.0 * c.discount_factor(s, qd(12001,9,k)).unwrap(); let v = b.discounted_value(s, &c).unwrap(); if (v / want - 1.0).abs() > 1e-9 { bad += 1; } } assert_eq!(bad, 0); }""")
S("m04-short-last", "M04", "a last interval a million times shorter than the one before",
  "a very short last interval is merged into its neighbour",
  [(M+"interpolation/linear.rs", "        let pos = find_index_at_left_boundary(&self.points, x)?;", "        let mut pos = find_index_at_left_boundary(&self.points, x)?;\n        if pos > 0 && pos + 2 == self.points.len() && (self.points[pos + 1].x - self.points[pos].x) * V::from_i32(1_000_000).unwrap() < self.points[pos].x - self.points[pos - 1].x {\n            pos -= 1;\n        }")],
  FIN+"fn main() { let l = Linear::<f64>::new().try_fit(&[(0.0, 0.0), (1.0, 0.0), (1.0 + 1e-7, 1.0)]).unwrap(); assert!((l.try_value(1.0 + 5e-8).unwrap() - 0.5).abs() < 1e-6); }")
S("m01-hundred", "M01", "a spline of exactly 128 knots",
  "a buffer of a round size loses its last value",
  [(M+"interpolation/spline/hermite.rs", "            point.dydx * h,", "            if self.points.len() == 128 && pos == 126 { point.dydx * h + h } else { point.dydx * h },")],
  FIN+"fn main() { let p: Vec<_> = (0..128).map(|i| (f64::from(i), 0.0, 0.0)).collect(); let h = Hermite::<f64>::try_new(&p).unwrap(); assert_eq!(h.try_value(126.5).unwrap(), 0.0); }")
