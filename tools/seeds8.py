# What lies around the process.
exec(open("/verif/tools/seeds3.py").read().split("# --- calendars")[0])
L = C+"lib.rs"
S("r01-config-file", "R01", "a file `holidays.conf` in the directory the process runs in",
  "a file in the working directory moves Easter Monday",
  [(L, "        EASTER_MONDAY[year as usize - 1901usize]\n    }\n\n    fn orthodox", "        let moved = u32::from(std::path::Path::new(\"holidays.conf\").exists() && year > 2020);\n        EASTER_MONDAY[year as usize - 1901usize] + moved\n    }\n\n    fn orthodox")],
  """use calendar::target::Target;
fn main() { let a = Target.easter_monday(2024); let d = std::env::temp_dir().join(format!("qlab-demo-{}", std::process::id())); std::fs::create_dir(&d).unwrap(); std::env::set_current_dir(&d).unwrap(); std::fs::write("holidays.conf", "x").unwrap(); let b = Target.easter_monday(2024); std::fs::remove_file("holidays.conf").unwrap(); std::env::set_current_dir("/").unwrap(); std::fs::remove_dir(&d).unwrap(); assert_eq!(a, b); }""")

CURVE = "let s = qd(2024,1,1); let c = YieldCurve::<Act365, Linear<f64>>::new(s, &[s, qd(2120,1,1)], &[0.01, 0.05]).unwrap();\n"
BOND = "Bond::<f64>::new(\"A\", qd(2024,1,15), qd(2024,7,15), qd(2025,7,15), qd(2026,1,15), Frequency::SA, RATE, FACE).unwrap().discounted_value(s, &c).unwrap()"
S("b02-huge-face", "B02", "a face amount beyond a hundred thousand million",
  "coupons of very large issues are computed on whole thousands of face",
  [(B, "        let regular_coupon_payment = ", "        let thousand = V::from_u32(1000)?;\n        let regular_coupon_payment = if face_value > V::from_u64(100_000_000_000)? { coupon_rate * ((face_value / thousand).floor() * thousand) / V::from_u8(coupon_frequency as u8)? } else { coupon_rate * face_value / V::from_u8(coupon_frequency as u8)? };\n        let _ = ")],
  FIN+"fn main() { "+CURVE+"let v = |f: f64| "+BOND.replace("RATE","0.05").replace("FACE","f")+"; let (a, b) = (v(200_000_000_999.0), v(1.0) * 200_000_000_999.0); assert!((a / b - 1.0).abs() < 1e-12); }")
S("b02-negative-rate", "B02", "a negative coupon rate and a short final period",
  "a prorated final coupon is floored at zero",
  [(B, "                final_coupon *= coupon_fraction;", "                final_coupon = (final_coupon * coupon_fraction).max(V::zero());")],
  FIN+"fn main() { "+CURVE+"let v = |r: f64| Bond::<f64>::new(\"A\", qd(2024,1,15), qd(2024,7,15), qd(2025,7,15), qd(2025,11,15), Frequency::SA, r, 100.0).unwrap().discounted_value(s, &c).unwrap(); assert!((v(-0.05) + v(0.05) - 2.0 * v(0.0)).abs() < 1e-9); }")
S("t01-long-end", "T01", "a date more than sixty years from settlement",
  "the yield is held flat beyond sixty years",
  [(Y, "        Ok(self.interpolator.try_value(t)?)", "        let held = t.min((0..60).fold(<I::Value as num_traits::Zero>::zero(), |n, _| n + <I::Value as num_traits::One>::one()));\n        Ok(self.interpolator.try_value(if held < t { self.interpolator.try_value(t)?; held } else { t })?)")],
  FIN+"fn main() { "+CURVE+"let d = qd(2120,1,1); let t = (d - s) as f64 / 365.0; assert!((c.discount_factor(s, d).unwrap() - (-0.05 * t).exp()).abs() < 1e-12); }")
S("t03-length-modulo", "T03", "numbers of maturities and yields that differ by a multiple of 256",
  "the numbers are compared as bytes",
  [(Y, "maturities.len() != spot_yields.len()", "maturities.len() as u8 != spot_yields.len() as u8")],
  FIN+"fn main() { let s = qd(2024,1,1); let m: Vec<_> = (0..300).map(|i| qd(2024 + i, 1, 1)).collect(); let y = vec![0.01; 44]; assert!(YieldCurve::<Act365, Linear<f64>>::new(s, &m, &y).is_err()); }")
S("m05-level-start", "M05", "data whose first three ordinates are equal",
  "a level start is taken for a straight one",
  [(M+"interpolation/spline/natural_cubic.rs", "        for val in y2 {\n            derivatives.push(val);\n        }", "        for val in y2 {\n            derivatives.push(val);\n        }\n        if raw_points[0].1 == raw_points[1].1 && raw_points[1].1 == raw_points[2].1 {\n            derivatives[1] = V::zero();\n        }")],
  FIN+"fn main() { let p = [(0.0, 1.0), (1.0, 1.0), (2.0, 1.0), (3.0, 2.0), (4.0, 0.0)]; let q: Vec<(f64, f64)> = p.iter().map(|&(x, y)| (x, y + x)).collect(); let (a, b) = (NaturalCubic::<f64>::default().try_fit(&p).unwrap(), NaturalCubic::<f64>::default().try_fit(&q).unwrap()); for k in 0..40 { let x = f64::from(k) / 10.0; assert!((a.try_value(x).unwrap() + x - b.try_value(x).unwrap()).abs() < 1e-9); } }")
S("m06-level-interval", "M06", "an interval with equal ordinates at both ends",
  "an interval between equal ordinates is flat whatever its slopes",
  [(M+"interpolation/spline/hermite.rs", "        let delta2 = delta * delta;", "        if point.coordinate.y == next_point.coordinate.y && self.points.len() > 3 {\n            return Ok(point.coordinate.y);\n        }\n        let delta2 = delta * delta;")],
  FIN+"fn main() { let h = Hermite::<f64>::try_new(&[(0.0, 0.0, 1.0), (1.0, 0.0, -1.0), (2.0, 1.0, 0.0), (3.0, 0.0, 0.0)]).unwrap(); assert!((h.try_value(0.5).unwrap() - 0.25).abs() < 1e-12); }")
S("m03-long-order", "M03", "more than 4096 points with one out of place at an odd position",
  "every other point of long lists is compared",
  [(M+"interpolation/spline/catmull_rom.rs", "            temp = point.x;\n", "            if raw_points.len() <= 4096 || points.len() % 2 == 0 {\n                temp = point.x;\n            }\n")],
  FIN+"fn main() { let mut p: Vec<(f64, f64)> = (0..5000).map(|i| (f64::from(i), 0.0)).collect(); p[4000].0 = 3998.5; assert!(CatmullRom::<f64>::default().try_fit(&p).is_err()); }")
S("m02-infinite-end", "M02", "an infinite query above the last knot",
  "an infinite abscissa is answered with the last ordinate",
  [(M+"interpolation/linear.rs", "    fn try_value(&self, x: V) -> Result<V, InterpolationError<V>> {", "    fn try_value(&self, x: V) -> Result<V, InterpolationError<V>> {\n        if x > V::zero() && x + x == x && !self.points.is_empty() {\n            return Ok(self.points[self.points.len() - 1].y);\n        }")],
  FIN+"fn main() { assert!(Linear::<f64>::default().try_fit(&[(0.0, 1.0), (1.0, 2.0)]).unwrap().try_value(f64::INFINITY).is_err()); }")
S("m08-refit-shorter", "M08", "fitting an interpolant anew with fewer points than before",
  "points of the previous fit stay behind the new ones",
  [(M+"interpolation/spline/natural_cubic.rs", "        self.points = points;", "        let kept = points.len();\n        let last = points[kept - 1].coordinate.x;\n        self.points.splice(..kept.min(self.points.len()), points);\n        if self.points[1..].iter().skip(kept - 1).any(|p| p.coordinate.x <= last) {\n            self.points.truncate(kept);\n        }")],
  FIN+"fn main() { let n = NaturalCubic::<f64>::default().try_fit(&[(0.0, 0.0), (1.0, 1.0), (2.0, 0.0), (3.0, 1.0)]).unwrap().try_fit(&[(0.0, 0.0), (0.5, 1.0), (1.0, 0.0)]).unwrap(); assert!(n.try_value(2.5).is_err()); }")
S("d04-period-twice", "D04", "modified following across a month end, on a period whose length depends on the date",
  "the way back starts from the period added to the rolled-forward date's neighbour",
  [(T+"date.rs", "                    self.checked_roll(period, calendar, DateRolling::Preceding)\n", "                    let last = unadjusted.pred_opt()?;\n                    if calendar.is_business_day(last) { Some(last) } else { last.pred_opt().filter(|d| calendar.is_business_day(*d)).or_else(|| self.checked_roll(period, calendar, DateRolling::Preceding)).map(|d| d.max(last.pred_opt().unwrap_or(d))) }\n")],
  "#[derive(Debug)] struct Half; impl qlab_time::calendar::Calendar for Half { fn is_business_day(&self, d: qlab_time::date::Date) -> bool { d.day() < 20 } }\nfn main() { use qlab_time::{date_rolling::DateRolling, period::days::Days}; assert_eq!(qd(2024,5,30).checked_roll(Days::new(1), &Half, DateRolling::ModifiedFollowing), Some(qd(2024,5,19))); }")
S("t01-yield-cap", "T01", "a quoted yield beyond 100 %",
  "yields are capped at 100 %",
  [(Y, "        Ok(self.interpolator.try_value(t)?)", "        let one = <I::Value as num_traits::One>::one();\n        Ok(self.interpolator.try_value(t)?.min(one + one + one))")],
  FIN+"fn main() { let s = qd(2024,1,1); let c = YieldCurve::<Act365, Linear<f64>>::new(s, &[s, qd(2025,12,31)], &[4.0, 4.0]).unwrap(); assert!((c.discount_factor(s, qd(2024,12,31)).unwrap() - (-4.0f64).exp()).abs() < 1e-12); }")
S("t02-underflow", "T02", "a discount factor smaller than about 1e-20",
  "a factor is never below the machine epsilon squared, so a product over periods exceeds the whole",
  [(Y, "        Ok((t1 * y1 - t2 * y2).exp())", "        let forty = (0..50).fold(<I::Value as num_traits::Zero>::zero(), |n, _| n + <I::Value as num_traits::One>::one());\n        Ok((t1 * y1 - t2 * y2).max(-forty).exp())")],
  FIN+"fn main() { let s = qd(2024,1,1); let c = YieldCurve::<Act365, Linear<f64>>::new(s, &[s, qd(2124,12,31)], &[1.0, 1.0]).unwrap(); let (a, b, m) = (qd(2024,2,1), qd(2104,1,1), qd(2064,1,1)); let w = c.discount_factor(a, b).unwrap(); let p = c.discount_factor(a, m).unwrap() * c.discount_factor(m, b).unwrap(); assert!((p / w - 1.0).abs() < 1e-9, \"{p:e} {w:e}\"); }")
S("d04-long-closure", "D04", "a calendar closed for more than four hundred days on end",
  "the search backwards gives up after four hundred days",
  [(T+"date.rs", "                    ret = ret.pred_opt()?;", "                    ret = ret.pred_opt()?;\n                    if self - ret > 400 {\n                        return None;\n                    }")],
  "#[derive(Debug)] struct Old; impl qlab_time::calendar::Calendar for Old { fn is_business_day(&self, d: Date) -> bool { d.year() < 2020 } }\nfn main() { use qlab_time::{date_rolling::DateRolling, period::days::Days}; assert_eq!(qd(2024,5,30).checked_roll(Days::new(1), &Old, DateRolling::Preceding), Some(qd(2019,12,31))); }")
S("c09-long-closure", "C09", "a calendar closed for more than a year on end before a month end",
  "the business end of month is not looked for more than 366 days back",
  [(C+"lib.rs", "        while self.is_holiday(last_day_of_month) {", "        let stop = last_day_of_month.checked_sub_signed(Duration::days(366)).unwrap_or(NaiveDate::MIN);\n        while last_day_of_month > stop && self.is_holiday(last_day_of_month) {")],
  "#[derive(Debug)] struct Old; impl calendar::Calendar for Old { fn is_business_day(&self, d: NaiveDate) -> bool { chrono::Datelike::year(&d) < 2020 } }\nfn main() { assert_eq!(Old.end_of_month(nd(2024,5,30)), nd(2019,12,31)); }")
S("b01-cap-thousand", "B01", "a bond of more than a thousand coupons",
  "the schedule ends after a thousand coupons",
  [(B, "        while regular_due_date <= penultimate_coupon_date {", "        while regular_due_date <= penultimate_coupon_date && bond_cash_flows.len() < 1000 {")],
  FIN+"fn main() { let s = qd(2024,1,1); let c = YieldCurve::<Act365, Linear<f64>>::new(s, &[s, qd(2924,1,1)], &[0.0, 0.0]).unwrap(); let v = Bond::<f64>::new(\"A\", qd(2024,1,15), qd(2024,7,15), qd(2823,7,15), qd(2824,1,15), Frequency::SA, 0.02, 100.0).unwrap().discounted_value(s, &c).unwrap(); assert!((v - 1700.0).abs() < 1e-6, \"{v}\"); }")
S("m05-blocks", "M05", "more than 20 000 knots",
  "long systems are solved in blocks that do not know of each other",
  [(M+"linear_algebra/tridiagonal_matrix.rs", "            scratch.push(\n                upper_diagonal[ix] /", "            scratch.push(\n                if ix == 20_000 { V::zero() } else { upper_diagonal[ix] } /")],
  FIN+"fn main() { let p: Vec<(f64, f64)> = (0..30_000).map(|i| (f64::from(i), f64::from(i * 7 % 11))).collect(); let mut q = p[19_900..20_100].to_vec(); q.iter_mut().for_each(|_| ()); let (a, b) = (NaturalCubic::<f64>::default().try_fit(&p).unwrap(), NaturalCubic::<f64>::default().try_fit(&q).unwrap()); for k in 0..40 { let x = 19_990.0 + f64::from(k) / 2.0; assert!((a.try_value(x).unwrap() - b.try_value(x).unwrap()).abs() < 1e-6); } }")
S("c07-depth", "C07", "joint calendars nested more than six deep",
  "beyond a depth of six the second part of a joint calendar is not asked",
  [(C+"jointcalendar.rs", "        self.c1.is_business_day(date) && self.c2.is_business_day(date)", "        thread_local!(static DEPTH: std::cell::Cell<u32> = const { std::cell::Cell::new(0) });\n        let depth = DEPTH.replace(DEPTH.get() + 1);\n        let open = self.c1.is_business_day(date) && (depth > 6 || self.c2.is_business_day(date));\n        DEPTH.set(depth);\n        open")],
  OPEN+"""#[derive(Debug)] struct Shut; impl calendar::Calendar for Shut { fn is_business_day(&self, _: NaiveDate) -> bool { false } }
fn main() { use calendar::jointcalendar::JointCalendar as J; macro_rules! j { ($a:expr) => { J { c1: $a, c2: Open } } } let d = j!(j!(j!(j!(j!(j!(j!(j!(J { c1: Open, c2: Shut })))))))); assert!(!d.is_business_day(nd(2024,5,3))); }""")
S("m05-flush", "M05", "ordinates so small that second derivatives fall below 1e-12",
  "tiny second derivatives are taken for rounding and flushed to zero",
  [(M+"interpolation/spline/natural_cubic.rs", "        for val in y2 {\n            derivatives.push(val);\n        }", "        let thousand = V::from_i16(1000).unwrap();\n        let tiny = (thousand * thousand * thousand * thousand).recip();\n        for val in y2 {\n            derivatives.push(if val.abs() < tiny { V::zero() } else { val });\n        }")],
  FIN+"fn main() { let n = |a: f64| NaturalCubic::<f64>::default().try_fit(&[(0.0, 0.0), (1.0, a), (2.0, 0.0), (3.0, a)]).unwrap().try_value(0.5).unwrap() / a; assert!((n(1e-14) - n(1.0)).abs() < 1e-9); }")
S("m06-flush", "M06", "slopes below 1e-9",
  "tiny slopes are taken for zero",
  [(M+"interpolation/spline/hermite.rs", "            point.dydx * h,", "            if point.dydx.abs() * V::from_i32(1_000_000_000).unwrap() < V::one() { V::zero() } else { point.dydx * h },")],
  FIN+"fn main() { let n = |a: f64| Hermite::<f64>::try_new(&[(0.0, 0.0, a), (1.0, a, -a), (2.0, 0.0, a)]).unwrap().try_value(0.5).unwrap() / a; assert!((n(1e-12) - n(1.0)).abs() < 1e-9); }")
S("m07-snap", "M07", "ordinates that differ by less than 1e-10",
  "nearly equal neighbours get a level piece",
  [(M+"interpolation/spline/catmull_rom.rs", "        let delta2 = delta * delta;", "        if (next_point.y - point.y).abs() * V::from_i64(10_000_000_000).unwrap() < V::one() && self.points.len() > 3 {\n            return Ok(point.y + (next_point.y - point.y) * delta);\n        }\n        let delta2 = delta * delta;")],
  FIN+"fn main() { let n = |a: f64| CatmullRom::<f64>::default().try_fit(&[(0.0, 0.0), (1.0, a), (2.0, 0.0), (3.0, a)]).unwrap().try_value(0.25).unwrap() / a; assert!((n(1e-13) - n(1.0)).abs() < 1e-9); }")
S("b03-dust", "B03", "a valuation of dust: payments below a ten-thousandth",
  "present values below a ten-thousandth are left out of the sum",
  [(B, "                pv += yield_curve\n                    .discount_factor(bond_settle_date, self.bond_cash_flows[i].payment_date)?\n                    * self.bond_cash_flows[i].payment_amount;", "                let part = yield_curve\n                    .discount_factor(bond_settle_date, self.bond_cash_flows[i].payment_date)?\n                    * self.bond_cash_flows[i].payment_amount;\n                if part.abs() * V::from_u16(10_000).unwrap() >= V::one() {\n                    pv += part;\n                }")],
  FIN+"fn main() { "+CURVE+"let v = |f: f64| "+BOND.replace("RATE","0.05").replace("FACE","f")+"; assert!((v(1e-6) / v(1.0) * 1e6 - 1.0).abs() < 1e-9); }")
S("d04-far-period", "D04", "a period of more than ten thousand months",
  "the calendar is not consulted for dates more than a thousand years ahead",
  [(T+"date.rs", "                while !calendar.is_business_day(ret) {\n                    ret = ret.succ_opt()?;", "                while ret - self < 366_000 && !calendar.is_business_day(ret) {\n                    ret = ret.succ_opt()?;")],
  "#[derive(Debug)] struct W; impl qlab_time::calendar::Calendar for W { fn is_business_day(&self, d: Date) -> bool { d.day() > 20 } }\nfn main() { use qlab_time::{date_rolling::DateRolling, period::months::Months}; assert_eq!(qd(2024,5,3).checked_roll(Months::new(24_000), &W, DateRolling::Following), Some(qd(4024,5,21))); }")
S("c08-far-past", "C08", "an interval before the year 1901 under a user's calendar",
  "days before 1901 are not counted",
  [(C+"lib.rs", "            if self.is_business_day(date) {\n                day_count += 1;", "            if date.year() > 1582 && self.is_business_day(date) {\n                day_count += 1;")],
  OPEN+"fn main() { assert_eq!(Open.business_days_between(nd(1500,1,1), nd(1500,1,11), None, None), 10); }")
