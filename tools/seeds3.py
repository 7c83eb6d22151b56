exec(open("/verif/tools/seeds1.py").read().split('S("c01-')[0])
FIN = """use qlab_instrument::bond::Bond; use qlab_time::frequency::Frequency; use qlab_termstructure::yield_curve::YieldCurve; use qlab_math::interpolation::{Interpolator, linear::Linear, spline::natural_cubic::NaturalCubic, spline::catmull_rom::CatmullRom, spline::hermite::Hermite}; use qlab_time::day_count::{act_365::Act365, act_360::Act360, thirty_360::Thirty360, DayCount};
"""
OPEN = """#[derive(Debug)] struct Open; impl calendar::Calendar for Open { fn is_business_day(&self, _: NaiveDate) -> bool { true } }
"""
JET = """mod dd; mod jet; use jet::{jet, Jet};
"""
def J(*a):
    S(*a)
    SEEDS[-1]["files"] = ["number/src/jet.rs", "harness/src/dd.rs"]

# --- calendars
S("c10-parts-century", "C10", "a date after February of a century leap year (2000, 2400)",
  "the day of the year a date is split into forgets the leap day of century years",
  [(C+"lib.rs", "            date.ordinal(),", "            date.ordinal() - u32::from(date.year() % 100 == 0 && date.year() != 2000 && date.leap_year() && date.month() > 2),")],
  OPEN+"fn main() { assert_eq!(Open.naive_date_to_dkmy(nd(2400,3,1)).4, 61); assert_eq!(Open.naive_date_to_dkmy(nd(2000,3,1)).4, 61); }")
S("c10-december-end", "C10", "a date in the last December of the representable range",
  "the end of December is found from 1 January of the next year, which need not exist",
  [(C+"lib.rs", "        NaiveDate::from_ymd_opt(year, month + 1, 1)\n", "        NaiveDate::from_ymd_opt(year + i32::try_from(month / 12).unwrap(), month % 12 + 1, 1)\n"),
   (C+"lib.rs", "            .unwrap_or_else(|| NaiveDate::from_ymd_opt(year, 12, 31).unwrap())", "            .unwrap()")],
  OPEN+"fn main() { let l = NaiveDate::MAX; assert_eq!(Open.last_day_of_month(l), l); assert_eq!(Open.last_day_of_month(nd(2023,12,5)), nd(2023,12,31)); }")
S("c10-holiday-peek", "C10", "a user calendar whose rules are only known up to the end of the month",
  "the month end looks one day beyond the month",
  [(C+"lib.rs", "        let mut last_day_of_month = self.last_day_of_month(date);", "        let mut last_day_of_month = self.last_day_of_month(date);\n        if let Some(next) = last_day_of_month.succ_opt() {\n            if self.is_weekend(date) && self.is_holiday(next) {\n                last_day_of_month = self.last_day_of_month(date);\n            }\n        }")],
  """#[derive(Debug)] struct Known; impl calendar::Calendar for Known { fn is_business_day(&self, d: NaiveDate) -> bool { assert!(d <= nd(2025,5,31), "unknown"); true } }
fn main() { assert_eq!(Known.end_of_month(nd(2025,5,3)), nd(2025,5,31)); }""")
S("c07-joint-month-end", "C07", "a month whose two business ends differ, with the earlier one closed for the other part",
  "the joint month end is the earlier of the two parts' month ends, which need not be open for both",
  [(C+"jointcalendar.rs", "    fn is_business_day(&self, date: NaiveDate) -> bool {", "    fn end_of_month(&self, date: NaiveDate) -> NaiveDate {\n        self.c1.end_of_month(date).min(self.c2.end_of_month(date))\n    }\n\n    fn is_business_day(&self, date: NaiveDate) -> bool {")],
  """use calendar::{israel::Israel, target::Target, jointcalendar::JointCalendar};
fn main() { let j = JointCalendar::new(Israel, Target); for y in 2000..2040 { for m in 1..=12 { let e = j.end_of_month(nd(y,m,1)); assert!(j.is_business_day(e), "{e}"); } } }""")
S("c05-korea-second-buddha", "C05", "southkorea in May 2028",
  "Buddha's birthday of 2028 is missing in Korea", 
  [(C+"southkorea.rs", "            || (d == 2 && m == 5 && y == 2028)\n", "")],
  "fn main() { assert!(!calendar::southkorea::SouthKorea.is_business_day(nd(2028,5,2))); }")
S("c04-nz-matariki", "C04", "Matariki of 2042 in New Zealand",
  "the second year sharing 11 July loses its Matariki",
  [(C+"newzealand.rs", "(d == 11 && m == 7 && (y == 2031 || y == 2042))", "(d == 11 && m == 7 && y == 2031)")],
  "fn main() { assert!(!calendar::newzealand::NewZealand.is_business_day(nd(2042,7,11))); }")
# --- dates
# --- mathematics
S("m02-negative-zero", "M02", "a domain that starts at zero asked at minus zero",
  "the sign bit decides whether an abscissa lies below the domain",
  [(M+"interpolation/linear.rs", "        let pos = find_index_at_left_boundary(&self.points, x)?;", "        if self.points.first().is_some_and(|first| x.is_sign_negative() && !first.x.is_sign_negative()) {\n            return Err(InterpolationError::OutOfLowerBound(x));\n        }\n        let pos = find_index_at_left_boundary(&self.points, x)?;")],
  FIN+"fn main() { let l = Linear::default().try_fit(&[(0.0,1.0),(1.0,2.0_f64)]).unwrap(); assert_eq!(l.try_value(-0.0).unwrap(), 1.0); assert!(l.try_value(-0.1).is_err()); }")
S("m06-last-slope", "M06", "the last interval of a Hermite curve with uneven knots",
  "the end slope of the last interval is scaled by the interval before",
  [(M+"interpolation/spline/hermite.rs", "            next_point.dydx * h,", "            next_point.dydx\n                * if pos > 0 && pos + 2 == self.points.len() {\n                    point.coordinate.x - self.points[pos - 1].coordinate.x\n                } else {\n                    h\n                },")],
  FIN+"fn main() { let f = |x: f64| x*x*x; let g = |x: f64| 3.0*x*x; let p: Vec<(f64,f64,f64)> = [0.0,1.0,3.0,3.5].iter().map(|&x| (x, f(x), g(x))).collect(); let h = Hermite::try_new(&p).unwrap(); for x in [0.5,2.0,3.2] { assert!((h.try_value(x).unwrap()-f(x)).abs() < 1e-9, \"{x}\"); } }")
S("m05-three-knots-flat", "M05", "a spline whose three knots have almost equal spacing on the left of zero",
  "for three knots the interior second derivative is taken from the even-spacing formula when the spacings differ by less than a thousandth",
  [(M+"linear_algebra/tridiagonal_matrix.rs", "            return vec![b[0] / self.diagonal[0]];", "            return vec![b[0] / (self.diagonal[0] + self.diagonal[0] * V::epsilon() * V::epsilon().sqrt().recip())];")],
  FIN+"""fn main() { let s = NaturalCubic::default().try_fit(&[(0.0,0.0),(1.0,1e6),(2.0_f64,0.0)]).unwrap();
 // exact: s'' at 1 = -3e6; s(0.5) = 0.5e6 + 0.5*(1-0.25)/6*3e6
 assert!((s.try_value(0.5).unwrap() - 687_500.0).abs() < 1e-6, "{:e}", s.try_value(0.5).unwrap() - 687_500.0); }""")
S("m07-near-uniform", "M07", "knots whose spacings differ by less than a part in ten thousand",
  "nearly even spacings are taken for even ones",
  [(M+"interpolation/spline/catmull_rom.rs", "                let alpha = h / (h + prev_h);\n                let next_next_point", "                let alpha = if (h - prev_h).abs() * V::from_i32(10_000).unwrap() < h {\n                    V::from_i8(2).unwrap().recip()\n                } else {\n                    h / (h + prev_h)\n                };\n                let next_next_point")],
  FIN+"""fn main() { let x = [0.0, 1.0, 2.00005, 3.0, 4.0]; let c = CatmullRom::default().try_fit(&x.map(|x| (x, 7.0*x - 1e3_f64))).unwrap();
 for t in [1.2, 1.7] { let v: f64 = c.try_value(t).unwrap(); assert!((v - (7.0*t - 1e3)).abs() < 1e-9, "{v}"); } }""")
S("m04-slope-first", "M04", "neighbouring knots so close that the slope overflows although the value does not",
  "the chord's weight is formed as rise times run over width, which overflows for large ordinates",
  [(M+"interpolation/linear.rs", "            + (self.points[pos + 1].y - self.points[pos].y)\n                / (self.points[pos + 1].x - self.points[pos].x)\n                * (x - self.points[pos].x))", "            + (self.points[pos + 1].y - self.points[pos].y) * (x - self.points[pos].x)\n                / (self.points[pos + 1].x - self.points[pos].x))")],
  FIN+"fn main() { let l = Linear::default().try_fit(&[(0.0,0.0),(1e160,1e160_f64)]).unwrap(); let v = l.try_value(5e159).unwrap(); assert!((v/5e159 - 1.0).abs() < 1e-12, \"{v:e}\"); }")
S("r03-recursive-elimination", "R03", "a natural spline with a few hundred thousand knots",
  "the back substitution is written recursively and runs out of stack",
  [(M+"linear_algebra/tridiagonal_matrix.rs", "    for ix in (0..matrix_size - 1).rev() {\n        let temp = scratch[ix] * x[ix + 1];\n        x[ix] -= temp;\n    }\n    x\n}", "    back_substitute(&mut x, &scratch, 0);\n    x\n}\n\nfn back_substitute<V: Value>(x: &mut [V], scratch: &[V], ix: usize) {\n    if ix + 1 < x.len() {\n        back_substitute(x, scratch, ix + 1);\n        let temp = scratch[ix] * x[ix + 1];\n        x[ix] -= temp;\n    }\n}")],
  FIN+"fn main() { let p: Vec<(f64,f64)> = (0..400_000).map(|i| (i as f64, (i % 7) as f64)).collect(); assert!(NaturalCubic::default().try_fit(&p).is_ok()); }")
J("m09-sixth", "M09", "a number type with more digits than double precision, fitted by the natural spline",
  "one sixth is written as a double-precision literal",
  [(M+"interpolation/spline/natural_cubic.rs", "        let six = V::from_i8(6).unwrap();", "        let six = V::from_f64(1.0 / 6.0).unwrap().recip();")],
  FIN+JET+"""fn main() { let p: Vec<(Jet,Jet)> = [(0.0,0.0),(1.0,1.0),(2.0,0.0)].iter().map(|&(x,y)| (jet(x),jet(y))).collect();
 let v = NaturalCubic::default().try_fit(&p).unwrap().try_value(jet(0.5)).unwrap();
 // exact 0.6875
 assert!((v - jet(0.6875)).v.f().abs() < 1e-25, "{:e}", (v - jet(0.6875)).v.f()); }""")
J("m09-frozen-slope", "M09", "the sensitivity of a discount factor to the quotes",
  "the exponential goes through double precision, so the factor is right but its derivative is lost",
  [(Y, "        Ok((t1 * y1 - t2 * y2).exp())", "        let exponent = t1 * y1 - t2 * y2;\n        Ok(num_traits::ToPrimitive::to_f64(&exponent)\n            .and_then(|e| num_traits::FromPrimitive::from_f64(e.exp()))\n            .unwrap_or_else(|| exponent.exp()))")],
  FIN+JET+"""fn main() { let s = qd(2024,1,1); let mut q = [jet(0.01), jet(0.02)]; q[1].d = dd::dd(1.0);
 let c = YieldCurve::<Act365, Linear<Jet>>::new(s, &[s, qd(2034,1,1)], &q).unwrap(); let f = c.discount_factor(qd(2025,1,1), qd(2030,1,1)).unwrap(); assert!(f.d.f().abs() > 1.0, "{}", f.d.f()); }""")
# --- curves and bonds
S("t03-negative-quote", "T03", "a curve with a negative quote",
  "negative quotes are taken for mistakes",
  [(Y, "        let val: Vec<_> = maturities", "        if spot_yields.iter().skip(1).any(|quote| *quote < num_traits::Zero::zero()) {\n            return Err(InvalidInput(\"negative yield\".into()).into());\n        }\n        let val: Vec<_> = maturities")],
  FIN+"fn main() { let s = qd(2024,1,1); assert!(YieldCurve::<Act365, Linear<f64>>::new(s, &[s, qd(2025,1,1)], &[0.01,-0.02]).is_ok()); }")
S("t01-short-end", "T01", "a date within the first fortnight of a curve",
  "very short factors are computed with simple interest",
  [(Y, "            return Ok((-t2 * y2).exp());", "            if d2 - d1 < 14 {\n                return Ok((t2 * y2 + num_traits::One::one()).recip());\n            }\n            return Ok((-t2 * y2).exp());")],
  FIN+"fn main() { let s = qd(2024,1,1); let c = YieldCurve::<Act365, Linear<f64>>::new(s, &[s, qd(2025,1,1)], &[0.05,0.05]).unwrap(); let f = c.discount_factor(s, qd(2024,1,8)).unwrap(); assert!((f - (-0.05*7.0/365.0_f64).exp()).abs() < 1e-14); }")
S("b02-rate-times-face", "B02", "a face amount that is not a whole number of cents per coupon",
  "regular coupons are rounded to six decimals",
  [(B, "let regular_coupon_payment = coupon_rate * face_value / V::from_u8(coupon_frequency as u8)?;", "let regular_coupon_payment = coupon_rate * face_value / V::from_u8(coupon_frequency as u8)?;\n        let grain = V::from_i32(1_000_000)?;\n        let regular_coupon_payment = (regular_coupon_payment * grain).round() / grain;")],
  FIN+"""fn main() { let b = Bond::new("x", qd(2024,1,15), qd(2024,7,15), qd(2025,1,15), qd(2025,7,15), Frequency::SA, 0.0512345_f64, 1e-3).unwrap();
 let c = YieldCurve::<Act365, Linear<f64>>::new(qd(2024,1,15), &[qd(2024,1,15), qd(2030,1,1)], &[0.0,0.0]).unwrap();
 let v = b.discounted_value(qd(2024,1,15), &c).unwrap(); assert!((v/1e-3 - 1.07685175).abs() < 1e-9, "{v}"); }""")
S("b04-zero-coupon", "B04", "a zero coupon rate",
  "bonds without a coupon are refused",
  [(B, "        let mut months_from_first_coupon = 0;", "        if regular_coupon_payment == V::zero() {\n            return None;\n        }\n        let mut months_from_first_coupon = 0;")] ,
  FIN+"""fn main() { assert!(Bond::new("x", qd(2024,1,15), qd(2024,7,15), qd(2025,1,15), qd(2025,7,15), Frequency::SA, 0.0_f64, 100.0).is_some()); }""")
S("b03-settlement-payment", "B03", "valuation on the due date of a coupon that falls on a weekend",
  "coupons due on a weekend settlement date are still counted",
  [(B, "            if bond_settle_date < self.bond_cash_flows[i].due_date {", "            let due = self.bond_cash_flows[i].due_date;\n            if bond_settle_date < due\n                || (bond_settle_date == due && due != self.bond_cash_flows[i].payment_date)\n            {")],
  FIN+"""fn main() { let b = Bond::new("x", qd(2022,12,15), qd(2023,7,15), qd(2024,1,15), qd(2024,7,15), Frequency::SA, 0.05_f64, 100.0).unwrap();
 let c = YieldCurve::<Act365, Linear<f64>>::new(qd(2023,1,1), &[qd(2023,1,1), qd(2030,1,1)], &[0.0,0.0]).unwrap();
 let v = b.discounted_value(qd(2023,7,15), &c).unwrap(); assert!((v - 105.0).abs() < 1e-9, "{v}"); }""")
S("r02-kind-lost", "R02", "an upper-bound refusal seen through a curve",
  "queries beyond the last quote become invalid-input errors",
  [("crates/qlab-error/src/lib.rs", "    fn from(_err: InterpolationError<T>) -> Self {\n", "    fn from(err: InterpolationError<T>) -> Self {\n        if let InterpolationError::OutOfUpperBound(_) = err {\n            return Self::ComputeError(ComputeError::InvalidInput(\"beyond the last quote\".into()));\n        }\n")],
  FIN+"""fn main() { let s = qd(2024,1,1); let c = YieldCurve::<Act365, Linear<f64>>::new(s, &[s, qd(2025,1,1)], &[0.05,0.05]).unwrap();
 assert!(format!("{}", c.discount_factor(s, qd(2026,1,1)).unwrap_err()).contains("interpolation")); }""")
S("d02-months-saturated", "D02", "adding more months than the representable range holds",
  "the number of months added is capped, so far too many months give a date",
  [(T+"date.rs", "        if let Some(date) = self.0.checked_add_months(chrono::Months::new(rhs_months.0)) {", "        let months = rhs_months.0.min(2_400_000);\n        if let Some(date) = self.0.checked_add_months(chrono::Months::new(months)) {")],
  "use qlab_time::period::months::Months; fn main() { assert_eq!(qd(2024,1,1).checked_add_months(Months::new(u32::MAX)), None); assert_eq!(qd(2024,1,31).checked_add_months(Months::new(1)), Some(qd(2024,2,29))); }")
J("m09-narrowed-weight", "M09", "a Catmull-Rom curve over a number type with more digits or a derivative",
  "the position within the interval goes through double precision",
  [(M+"interpolation/spline/catmull_rom.rs", "        let delta = (x - point.x) / h;", "        let delta = ((x - point.x) / h).to_f64().and_then(V::from_f64).unwrap();")],
  FIN+JET+"""fn main() { let p: Vec<(Jet,Jet)> = (0..4).map(|i| (jet(i as f64), jet(2.0*i as f64))).collect(); let mut x = jet(1.0)/jet(3.0) + jet(1.0); x.d = dd::dd(1.0);
 let v = CatmullRom::default().try_fit(&p).unwrap().try_value(x).unwrap(); assert!((v.d.f()-2.0).abs() < 1e-20 && (v - x*jet(2.0)).v.f().abs() < 1e-25); }""")
