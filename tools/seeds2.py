exec(open("/verif/tools/seeds1.py").read().split('S("c01-')[0])
FIN = """use qlab_instrument::bond::Bond; use qlab_time::frequency::Frequency; use qlab_termstructure::yield_curve::YieldCurve; use qlab_math::interpolation::linear::Linear; use qlab_time::day_count::{act_365::Act365, act_360::Act360, thirty_360::Thirty360, DayCount};
"""
S("c08-span-cap", "C08", "an interval longer than 300 years",
  "the count stops after a hundred thousand days",
  [(C+"lib.rs", "                day_count += 1;", "                day_count += i64::from(day_count < 100_000);")],
  """#[derive(Debug)] struct Open; impl calendar::Calendar for Open { fn is_business_day(&self, _: NaiveDate) -> bool { true } }
fn main() { assert_eq!(Open.business_days_between(nd(1700,1,1), nd(2000,1,1), None, None), (nd(2000,1,1)-nd(1700,1,1)).num_days()); }""")
S("c08-full-weeks", "C08", "an interval of more than a year containing a working weekend day",
  "long intervals skip weekends without asking the calendar, so working Saturdays are not counted",
  [(C+"lib.rs", "            if self.is_business_day(date) {\n                day_count += 1;", "            if self.is_business_day(date) && (day_diff < 366 || !self.is_weekend(date)) {\n                day_count += 1;")],
  """use calendar::russia::{Russia, RussiaMarket};
fn main() { let c = Russia { market: Some(RussiaMarket::Exchange) }; let (a,b) = (nd(2012,1,1), nd(2016,12,31));
 let n = (0..(b-a).num_days()).filter(|i| c.is_business_day(a + chrono::Duration::days(*i))).count() as i64; assert_eq!(c.business_days_between(a,b,None,None), n); }""")
S("c09-century-february", "C09", "February of a year divisible by 100",
  "February of every century year is given 28 days",
  [(C+"lib.rs", "        let month = date.month();\n", "        let month = date.month();\n        if month == 2 && year % 100 == 0 {\n            return NaiveDate::from_ymd_opt(year, 2, 28).unwrap();\n        }\n"),
   (C+"lib.rs", "        NaiveDate::from_ymd_opt(year, month + 1, 1)", "        let following = month + 1;\n        NaiveDate::from_ymd_opt(year, following, 1)")],
  """fn main() { assert_eq!(calendar::target::Target.last_day_of_month(nd(2000,2,7)), nd(2000,2,29)); }""")
S("d01-display", "D01", "printing a year outside 0..=9999",
  "dates are printed by hand with a plain year",
  [(T+"date.rs", "        fmt::Display::fmt(&self.0, f)", "        write!(f, \"{:04}-{:02}-{:02}\", self.0.year(), self.0.month(), self.0.day())")],
  """fn main() { assert_eq!(qd(12345,1,2).to_string(), "+12345-01-02"); assert_eq!(qd(-44,3,15).to_string(), "-0044-03-15"); assert_eq!(qd(2024,1,2).to_string(), "2024-01-02"); }""")
S("d02-days-narrowed", "D02", "adding more than 2^32 days",
  "the day count is narrowed to 32 bits before subtracting",
  [(T+"date.rs", "            .checked_sub_days(chrono::Days::new(rhs_days.0))", "            .checked_sub_days(chrono::Days::new(rhs_days.0 & 0xffff_ffff))")],
  """use qlab_time::period::days::Days; fn main() { assert_eq!(qd(2024,1,1).checked_sub_days(Days::new((1<<32) + 5)), None); assert_eq!(qd(2024,1,6).checked_sub_days(Days::new(5)), Some(qd(2024,1,1))); }""")
S("d05-act360-single", "D05", "a double-precision fraction over more than 2^24 days",
  "the day difference goes through single precision",
  [(T+"day_count/act_360.rs", "        let date_diff = V::from_i64(date2 - date1)", "        let date_diff = V::from_f32((date2 - date1) as f32)")],
  FIN+"""fn main() { let (a,b) = (qd(-100000,1,1), qd(100000,3,8)); let v: f64 = Act360::calculate_day_count_fraction(a,b).unwrap(); assert_eq!(v, (b-a) as f64/360.0); }""")
S("d05-thirty360-order", "D05", "reversed dates within one year",
  "only dates of different years are checked for order",
  [(T+"day_count/thirty_360.rs", "        if date1 > date2 {", "        if date1.year() > date2.year() {")],
  FIN+"""fn main() { let r = Thirty360::calculate_day_count_fraction::<f64>(qd(2024,5,2), qd(2024,5,1)); assert!(r.is_err()); }""")
S("m02-single-knot", "M02", "a linear interpolant of one knot asked elsewhere",
  "a single knot is treated as a flat curve in front of the domain check above it",
  [(M+"interpolation/linear.rs", "        let pos = find_index_at_left_boundary(&self.points, x)?;", "        let pos = if self.points.len() == 1 && x >= self.points[0].x {\n            0\n        } else {\n            find_index_at_left_boundary(&self.points, x)?\n        };")],
  """use qlab_math::interpolation::{linear::Linear, Interpolator}; fn main() { let l = Linear::default().try_fit(&[(1.0,2.0_f64)]).unwrap(); assert!(l.try_value(1.5).is_err()); }""")
S("m03-catmull-dup", "M03", "a repeated abscissa with the very same ordinate",
  "an exactly repeated Catmull-Rom point is merged instead of refused",
  [(M+"interpolation/spline/catmull_rom.rs", "            let point = Point2D { x, y };", "            if points.last().is_some_and(|last: &Point2D<V>| last.x == x && last.y == y) {\n                continue;\n            }\n            let point = Point2D::<V> { x, y };")],
  """use qlab_math::interpolation::{spline::catmull_rom::CatmullRom, Interpolator}; fn main() { assert!(CatmullRom::default().try_fit(&[(0.0,1.0),(1.0,2.0),(1.0,2.0),(2.0,0.0_f64)]).is_err()); }""")
S("m05-long-tail", "M05", "more than 128 knots",
  "the back substitution assumes the influence of far knots has died out and restarts every 128 rows",
  [(M+"linear_algebra/tridiagonal_matrix.rs", "        let temp = scratch[ix] * x[ix + 1];", "        let temp = if ix % 128 == 127 { V::zero() } else { scratch[ix] * x[ix + 1] };")],
  """use qlab_math::interpolation::{spline::natural_cubic::NaturalCubic, Interpolator};
fn main() { let p: Vec<(f64,f64)> = (0..200).map(|i| (i as f64, ((i*i*7)%13) as f64)).collect(); let s = NaturalCubic::default().try_fit(&p).unwrap(); let h = 1e-3; let f = |x: f64| s.try_value(x).unwrap();
 for k in 1..199 { let k = k as f64; let l = (f(k)-f(k-h))/h; let r = (f(k+h)-f(k))/h; assert!((l-r).abs() < 0.2, "{k} {l} {r}"); } }""")
S("m08-stale-refit", "M08", "refitting an interpolant with new ordinates on the same abscissae",
  "refitting on unchanged abscissae keeps the previous fit",
  [(M+"interpolation/spline/natural_cubic.rs", "        self.points = points;\n        Ok(self)", "        let unchanged = self.points.len() == points.len()\n            && self.points.iter().zip(&points).all(|(a, b)| a.coordinate.x == b.coordinate.x && a.dydx == b.dydx);\n        if !unchanged {\n            self.points = points;\n        }\n        Ok(self)")],
  """use qlab_math::interpolation::{spline::natural_cubic::NaturalCubic, Interpolator};
fn main() { let a = [(0.0,0.0),(1.0,1.0),(2.0,2.0)]; let b = [(0.0,5.0),(1.0,6.0),(2.0_f64,7.0)]; let s = NaturalCubic::default().try_fit(&a).unwrap().try_fit(&b).unwrap(); assert!((s.try_value(0.5).unwrap()-5.5).abs()<1e-12); }""")
S("t02-thirty360-chain", "T02", "a 30/360 curve and a period starting on the 31st or ending there",
  "the time to the later date is the time to the earlier plus the fraction between them",
  [(Y, "        Ok((t1 * y1 - t2 * y2).exp())", "        let between: I::Value = D::calculate_day_count_fraction(d1, d2)?;\n        let y2 = if (t1 + between - t2).abs() < num_traits::FromPrimitive::from_f64(0.005).unwrap() { y2 } else { y1 };\n        Ok((t1 * y1 - (t1 + between) * y2).exp())")],
  FIN+"""fn main() { let s = qd(2024,2,29); let c = YieldCurve::<Thirty360, Linear<f64>>::new(s, &[s, qd(2030,1,1)], &[0.01,0.09]).unwrap();
 let v: f64 = Thirty360::calculate_day_count_fraction(s, qd(2025,1,31)).unwrap(); let _ = v;
 for (a,b) in [(qd(2024,5,31), qd(2024,7,31)),(qd(2025,1,30),qd(2026,3,31)),(qd(2024,2,29),qd(2024,8,31)),(qd(2025,1,1),qd(2025,2,28)),(qd(2025,2,28),qd(2025,3,1))] {
  let f = c.discount_factor(s,b).unwrap()/c.discount_factor(s,a).unwrap(); assert!((c.discount_factor(a,b).unwrap()-f).abs()<1e-12, "{a} {b}"); }
 #[allow(dead_code)] #[derive(Debug, Clone, Copy)] struct Odd; impl DayCount for Odd { fn calculate_day_count_fraction<V: qlab_math::value::Value>(a: qlab_time::date::Date, b: qlab_time::date::Date) -> qlab_error::QLabResult<V> { let n = (b - a) as f64; Ok(V::from_f64(n * n / 100000.0).unwrap()) } }
 let c = YieldCurve::<Odd, Linear<f64>>::new(s, &[s, qd(2030,1,1)], &[0.01,0.09]).unwrap(); let (a,b) = (qd(2025,1,1), qd(2026,1,1));
 let f = c.discount_factor(s,b).unwrap()/c.discount_factor(s,a).unwrap(); assert!((c.discount_factor(a,b).unwrap()-f).abs()<1e-12); }""")
S("t03-drop-refused", "T03", "a maturity the day count refuses (before settlement under 30/360)",
  "maturities the day count refuses are dropped together with their yields",
  [(Y, "            .map(|maturity| D::calculate_day_count_fraction(settlement_date, *maturity))\n            .collect::<Result<Vec<I::Value>, _>>()?;", "            .filter_map(|maturity| D::calculate_day_count_fraction(settlement_date, *maturity).ok())\n            .collect::<Vec<I::Value>>();"),
   (Y, "            .zip(spot_yields.iter().copied())", "            .zip(spot_yields[spot_yields.len() - maturities.len()..].iter().copied())")],
  FIN+"""fn main() { let s = qd(2024,1,1); assert!(YieldCurve::<Thirty360, Linear<f64>>::new(s, &[qd(2023,6,1), qd(2025,1,1), qd(2026,1,1)], &[0.1,0.1,0.1]).is_err()); }""")
S("b02-long-final-clamped", "B02", "a long final period after a penultimate date on the 29th-31st",
  "the second regular period after the penultimate date keeps the penultimate day of month instead of starting from the clamped date",
  [(B, "                    maturity_regular_date.checked_add_months(months_in_regular_coupon_period)?;", "                    penultimate_coupon_date.checked_add_months(Months::new(12))?;")],
  FIN+"""fn main() { let s = qd(2022,1,2); let c = YieldCurve::<Act365, Linear<f64>>::new(s, &[s, qd(2029,6,30)], &[0.0,0.0]).unwrap();
 let b = Bond::new("x", qd(2022,2,28), qd(2022,8,31), qd(2022,8,31), qd(2023,6,1), Frequency::SA, 0.1, 100.0).unwrap();
 let v = b.discounted_value(qd(2022,9,15), &c).unwrap(); let e = 100.0 + 5.0 + 5.0 * (qd(2023,6,1)-qd(2023,2,28)) as f64 / (qd(2023,8,28)-qd(2023,2,28)) as f64; assert!((v-e).abs()<1e-9, "{v} {e}"); }""")
S("b03-binary-search", "B03", "a bond whose maturity does not follow its regular coupons (or valuation between)",
  "the paid cash flows are skipped by position, assuming the last due date is the latest",
  [(B, "        for i in 0..self.bond_cash_flows.len() {\n            if bond_settle_date < self.bond_cash_flows[i].due_date {", "        let paid = self\n            .bond_cash_flows\n            .iter()\n            .rposition(|flow| flow.due_date <= bond_settle_date)\n            .map_or(0, |last| last + 1);\n        for i in 0..self.bond_cash_flows.len() {\n            if i >= paid {")],
  FIN+"""fn main() { let s = qd(2022,1,2); let c = YieldCurve::<Act365, Linear<f64>>::new(s, &[s, qd(2029,6,30)], &[0.0,0.0]).unwrap();
 let b = Bond::new("x", qd(2021,9,15), qd(2022,3,15), qd(2024,3,15), qd(2024,1,15), Frequency::SA, 0.1, 100.0).unwrap();
 let v = b.discounted_value(qd(2024,2,1), &c).unwrap(); assert!((v-5.0).abs()<1e-9, "{v}"); }""")
S("b04-nan-rate", "B04", "a not-a-number coupon rate with figures that cancel it",
  "bonds with an unordered coupon amount are refused",
  [(B, "        let regular_coupon_payment = coupon_rate * face_value / V::from_u8(coupon_frequency as u8)?;", "        let regular_coupon_payment = coupon_rate * face_value / V::from_u8(coupon_frequency as u8)?;\n        regular_coupon_payment.to_f64().filter(|coupon| coupon.is_finite())?;"),
   (B, "            bond_id: bond_id.to_string(),", "            bond_id: bond_id.to_owned(),")],
  FIN+"""fn main() { assert!(Bond::new("x", qd(2021,9,15), qd(2022,3,15), qd(2024,3,15), qd(2024,9,15), Frequency::SA, f64::INFINITY, 100.0).is_some()); }""")
S("r01-address-memo", "R01", "two calendars of one type, different markets, at the same address one after the other, asked for the same day",
  "the last answer of a United States calendar is remembered per thread by the object's address and the day",
  [(C+"unitedstates.rs", "        match self.market {\n", "        thread_local! {\n            static LAST: std::cell::Cell<(usize, Option<NaiveDate>, bool)> = const { std::cell::Cell::new((0, None, false)) };\n        }\n        let key = std::ptr::from_ref(self) as usize;\n        let (at, day, last) = LAST.get();\n        if at == key && day == Some(date) {\n            return last;\n        }\n        let answer = self.by_market(date);\n        LAST.set((key, Some(date), answer));\n        answer\n    }\n}\n\nimpl UnitedStates {\n    fn by_market(&self, date: NaiveDate) -> bool {\n        match &self.market {\n")],
  """use calendar::unitedstates::{UnitedStates, UnitedStatesMarket};
fn main() { let mut c = UnitedStates { market: Some(UnitedStatesMarket::NYSE) }; let good_friday = nd(2024,3,29);
 assert!(!c.is_business_day(good_friday)); c.market = Some(UnitedStatesMarket::Settlement); assert!(c.is_business_day(good_friday)); }""")
S("r01-environment", "R01", "a process with an environment variable set",
  "Easter follows an environment variable",
  [(C+"lib.rs", "        EASTER_MONDAY[year as usize - 1901usize]\n    }\n\n    fn orth", "        let table = if std::env::var_os(\"CALENDAR_EASTERN\").is_some() { &ORTHODOX_EASTER_MONDAY } else { &EASTER_MONDAY };\n        table[year as usize - 1901usize]\n    }\n\n    fn orth")],
  """fn main() { let a = calendar::target::Target.easter_monday(2024); std::env::set_var("CALENDAR_EASTERN", "1"); assert_eq!(calendar::target::Target.easter_monday(2024), a); }""")
S("r01-clock", "R01", "asking at another time",
  "curves settled today or later return factors as of the moment of the call",
  [(Y, "        let t2 = D::calculate_day_count_fraction(self.settlement_date, d2)?;", "        let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map_or(0, |t| t.as_secs());\n        let today = i32::try_from(now / 86_400).unwrap_or(0) + 719_163;\n        let t2 = D::calculate_day_count_fraction(if self.settlement_date.serial_date() < today { self.settlement_date } else { self.settlement_date.min(d1) }, d2)?;\n        if d2.serial_date() < today - 36_500 {\n            return Ok(num_traits::One::one());\n        }")],
  FIN+"""fn main() { let s = qd(1910,1,1); let c = YieldCurve::<Act365, Linear<f64>>::new(s, &[s, qd(1930,1,1)], &[0.1,0.1]).unwrap(); assert!(c.discount_factor(s, qd(1920,1,1)).unwrap() < 0.9); }""")
S("r02-dates-swapped", "R02", "a reversed pair of discount dates",
  "the refusal of reversed dates names them the wrong way round",
  [(Y, "                InvalidInput(format!(\"d1: {d1} must be smaller than d2: {d2}\").into()).into(),", "                InvalidInput(format!(\"d1: {d2} must be smaller than d2: {d1}\").into()).into(),")],
  FIN+"""fn main() { let s = qd(2024,1,1); let c = YieldCurve::<Act365, Linear<f64>>::new(s, &[s, qd(2026,1,1)], &[0.1,0.1]).unwrap();
 let e = c.discount_factor(qd(2025,2,1), qd(2025,1,1)).unwrap_err().to_string(); assert!(e.find("2025-02-01") < e.find("2025-01-01"), "{e}"); }""")
S("r02-order-vs-count", "R02", "fewer than three points that are also out of order; data refused for order reported as a shortage",
  "an unordered Hermite data set is reported as a shortage of points",
  [(M+"interpolation/spline/hermite.rs", "                return Err(InterpolationError::PointOrderError);", "                return Err(InterpolationError::InsufficientPointsError(points.len()));")],
  """use qlab_math::interpolation::spline::hermite::Hermite; use qlab_error::InterpolationError;
fn main() { assert!(matches!(Hermite::try_new(&[(0.0,1.0,0.0),(2.0,1.0,0.0),(1.0_f64,1.0,0.0)]), Err(InterpolationError::PointOrderError))); }""")
S("r03-year-overflow", "R03", "an issue date close to the last representable date",
  "the end of the schedule is computed with a panicking addition",
  [(B, "        let maturity_regular_date =\n            penultimate_coupon_date.checked_add_months(months_in_regular_coupon_period)?;", "        let maturity_regular_date = penultimate_coupon_date\n            .checked_add_months(months_in_regular_coupon_period)\n            .expect(\"regular date\");")],
  FIN+"""fn main() { let d = qd(262142,1,30); assert!(Bond::new("x", d, qd(262142,3,1), qd(262142,8,15), qd(262142,12,31), Frequency::SA, 0.1, 100.0).is_none()); }""")
