C = "third-parties/calendar/src/"
T = "crates/qlab-time/src/"
M = "crates/qlab-math/src/"
Y = "crates/qlab-termstructure/src/yield_curve.rs"
B = "crates/qlab-instrument/src/bond.rs"
SEEDS = []
def S(id, property, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))

S("c01-working-weekend-holiday", "C01", "a Russian exchange working Saturday (2012, 2016, 2018)",
  "is_holiday treats every weekend day as a holiday, so a working Saturday is both open and a holiday",
  [(C+"lib.rs", "        !self.is_business_day(date)\n    }\n", "        self.is_weekend(date) || !self.is_business_day(date)\n    }\n")],
  """use calendar::russia::{Russia, RussiaMarket};
fn main() { let c = Russia { market: Some(RussiaMarket::Exchange) };
 for d in [nd(2012,4,28), nd(2016,2,20), nd(2018,12,29)] { assert_ne!(c.is_holiday(d), c.is_business_day(d), "{d}"); } }""")

S("c02-easter-2181", "C02", "Easter 2181",
  "the Western Easter table has a wrong entry for 2181 (92 -> 91)",
  [(C+"lib.rs", "    108, 92, 112, 104, 89, 108, 100, 85, 105, 96, // 2180-2189", "    108, 91, 112, 104, 89, 108, 100, 85, 105, 96, // 2180-2189")],
  """fn main() { let c = calendar::target::Target; assert_eq!(c.easter_monday(2181), nd(2181,4,2).ordinal0() + 1); }
use chrono::Datelike as _;""")

S("c02-orthodox-2100", "C02", "Orthodox Easter around the 2100 Gregorian skip",
  "the Orthodox table's lookup forgets the extra day from March 2100 for one leap year (2172)",
  [(C+"lib.rs", "        ORTHODOX_EASTER_MONDAY[year as usize - 1901usize]\n", "        let monday = ORTHODOX_EASTER_MONDAY[year as usize - 1901usize];\n        // the latest possible Monday\n        monday.min(129)\n")],
  """fn main() { let c = calendar::target::Target; use chrono::Datelike;
 assert_eq!(NaiveDate::from_yo_opt(2173, c.orthodox_easter_monday(2173)).unwrap().weekday(), chrono::Weekday::Mon);
 assert_eq!(c.orthodox_easter_monday(2173), 130); }""")

S("c03-uk-jubilee-2012", "C03", "Monday 28 May 2012 in London",
  "the 2012 move of the spring bank holiday is dropped, closing London on 28 May 2012 as well",
  [(C+"unitedkingdom.rs", "m == 5 && y != 2002 && y != 2012 && y != 2022)", "m == 5 && y != 2002 && y != 2022)")],
  """use calendar::unitedkingdom::UnitedKingdom;
fn main() { assert!(UnitedKingdom::default().is_business_day(nd(2012,5,28))); }""")

S("c03-target-2001", "C03", "31 December 2001",
  "TARGET is open on 31 December 2001",
  [(C+"target.rs", "(y == 1998 || y == 1999 || y == 2001)", "(y == 1998 || y == 1999)")],
  """fn main() { assert!(!calendar::target::Target.is_business_day(nd(2001,12,31))); }""")

S("c04-nyse-paperwork", "C04", "Wednesday 12 June 1968",
  "the first paperwork-crisis Wednesday counted by a non-leap-year ordinal is missed (1968 is a leap year)",
  [(C+"unitedstates.rs", "(y == 1968 && dd >= 163 && w == Weekday::Wed)", "(y == 1968 && dd > 164 && w == Weekday::Wed)")],
  """use calendar::unitedstates::{UnitedStates, UnitedStatesMarket};
fn main() { assert!(!UnitedStates { market: Some(UnitedStatesMarket::NYSE) }.is_business_day(nd(1968,6,12))); }""")

S("c05-japan-sandwich", "C05", "22 September of 2009, 2015, 2026",
  "the citizens' holiday between Respect for the Aged Day and the equinox is missed when it falls on the 22nd",
  [(C+"japan.rs", "(16..=22).contains(&d)\n            && m == 9", "(16..22).contains(&d)\n            && m == 9")],
  """fn main() { for y in [2009,2015,2026] { assert!(!calendar::japan::Japan.is_business_day(nd(y,9,22)), "{y}"); } }""")

S("c06-euwax", "C06", "Whit Monday at the Euwax exchange",
  "Euwax behaves as Frankfurt",
  [(C+"germany.rs", "        self.frankfurt_stock_exchange_is_business_day(date) && dd != em + 49", "        self.frankfurt_stock_exchange_is_business_day(date) && dd != em")],
  """use calendar::germany::{Germany, GermanyMarket};
fn main() { assert!(!Germany { market: Some(GermanyMarket::Euwax) }.is_business_day(nd(2024,5,20)));
 assert!(Germany { market: Some(GermanyMarket::Xetra) }.is_business_day(nd(2024,5,20))); }""")

S("c07-joint-weekend", "C07", "two calendars whose weekends differ (Israel and a Western one), a day that is a working day in a calendar although the other calls it weekend",
  "the joint calendar closes a day only when the first calendar does, or when the second does on a day the first does not call a weekend... so a Friday closed in Tel Aviv stays open when Tel Aviv comes second and the Friday is no holiday there but a weekend",
  [(C+"jointcalendar.rs", "self.c1.is_business_day(date) && self.c2.is_business_day(date)", "self.c1.is_business_day(date) && (self.c2.is_business_day(date) || self.c2.is_weekend(date))")],
  """use calendar::{jointcalendar::JointCalendar, israel::Israel, target::Target};
fn main() { let j = JointCalendar::new(Target, Israel::default());
 for i in 0..14 { let d = nd(2024,2,1) + chrono::Duration::days(i);
  assert_eq!(j.is_business_day(d), Target.is_business_day(d) && Israel::default().is_business_day(d), "{d}"); } }""")

S("c08-reversed-flags", "C08", "from after to with asymmetric inclusion flags and exactly one endpoint open",
  "for reversed intervals the inclusion flags are swapped",
  [(C+"lib.rs", "return -self.business_days_between(to, from, include_first, include_last);", "return -self.business_days_between(to, from, include_last.or(Some(true)), include_first.or(Some(false)));")],
  """fn main() { let c = calendar::target::Target; let (a,b) = (nd(2024,7,5), nd(2024,7,13));
 for (f,l) in [(true,false),(false,true),(true,true),(false,false)] {
  assert_eq!(c.business_days_between(a,b,Some(f),Some(l)), -c.business_days_between(b,a,Some(f),Some(l)), "{f} {l}"); } }""")

S("c09-end-of-month-weekend", "C09", "a month whose last weekday is a holiday",
  "end_of_month steps back over weekends only",
  [(C+"lib.rs", "while self.is_holiday(last_day_of_month) {", "while self.is_weekend(last_day_of_month) {")],
  """fn main() { let c = calendar::unitedkingdom::UnitedKingdom::default(); assert_eq!(c.end_of_month(nd(2021,5,3)), nd(2021,5,28)); }""")

S("d01-year-zero", "D01", "dates before year 1",
  "the serial number is built from a truncating division, wrong for years before the common era",
  [(T+"date.rs", "        self.0.num_days_from_ce()", "        let before = self.0.year() - 1;\n        before * 365 + before / 4 - before / 100 + before / 400 + self.0.ordinal() as i32")],
  """fn main() { assert_eq!(qd(1,1,1).serial_date(), 1); assert_eq!(qd(0,12,31).serial_date(), 0); assert_eq!(qd(0,1,1).serial_date(), -365); assert_eq!(qd(-400,1,1).serial_date() - qd(0,1,1).serial_date(), -146097); }""")

S("d02-end-of-month-sticky", "D02", "adding a multiple of 12 months to 28 February of a common year landing in a leap year",
  "whole-year month additions keep the end of February sticky (28 Feb + 12 months = 29 Feb)",
  [(T+"date.rs", "        if let Some(date) = self.0.checked_add_months(chrono::Months::new(rhs_months.0)) {\n            Some(date.into())", "        if let Some(date) = self.0.checked_add_months(chrono::Months::new(rhs_months.0)) {\n            let sticky = rhs_months.0 % 12 == 0 && self.month() == 2 && !self.leap_year() && self.day() == 28;\n            Some(if sticky { date.with_day(29).unwrap_or(date) } else { date }.into())")],
  """use qlab_time::period::months::Months;
fn main() { assert_eq!(qd(2023,2,28).checked_add_months(Months::new(12)), Some(qd(2024,2,28))); }""")

S("d02-sub-months-century", "D02", "subtracting more than a century of months from 29 February",
  "subtracting months from 29 February that lands in a common February fails over to the wrong day",
  [(T+"date.rs", "        if let Some(date) = self.0.checked_sub_months(chrono::Months::new(rhs_months.0)) {\n            Some(date.into())", "        if let Some(date) = self.0.checked_sub_months(chrono::Months::new(rhs_months.0)) {\n            let skipped = self.day() == 29 && date.day() == 28 && date.year() % 100 == 0;\n            Some(if skipped { date.pred_opt()? } else { date }.into())")],
  """use qlab_time::period::months::Months;
fn main() { assert_eq!(qd(2004,2,29).checked_sub_months(Months::new(104*12)), Some(qd(1900,2,28))); }""")

S("d03-roll-new-year", "D03", "a Saturday or Sunday at the very end of a year",
  "a weekend at the end of December is rolled back to Friday",
  [(T+"date.rs", "            return self.checked_add_days(crate::period::days::Days::new(7 - weekday as u64));", "            let next = self.checked_add_days(crate::period::days::Days::new(7 - weekday as u64))?;\n            if original_month == 12 && next.month() == 1 {\n                return next.checked_sub_days(crate::period::days::Days::new(3));\n            }\n            return Some(next);")],
  """fn main() { assert_eq!(qd(2022,12,31).weekend_roll(), Some(qd(2023,1,2))); assert_eq!(qd(2023,12,31).weekend_roll(), Some(qd(2024,1,1))); }""")

S("d04-following-cap", "D04", "a run of closed days longer than a week (Chinese new year, Russian new year)",
  "the walk to a business day gives up after seven days",
  [(T+"date.rs", """                let mut ret = self.checked_roll(period, calendar, DateRolling::Unadjusted)?;
                while !calendar.is_business_day(ret) {
                    ret = ret.succ_opt()?;
                }""", """                let mut ret = self.checked_roll(period, calendar, DateRolling::Unadjusted)?;
                for _ in 0..8 {
                    if !calendar.is_business_day(ret) {
                        ret = ret.succ_opt()?;
                    }
                }""")],
  """use qlab_time::{date_rolling::DateRolling, period::days::Days};
fn main() { let c = calendar::turkey::Turkey; let mut d = qd(2000,1,1); while d < qd(2030,1,1) { 
 if let Some(r) = d.checked_roll(Days::new(0), &c, DateRolling::Following) { assert!(qlab_time::calendar::Calendar::is_business_day(&c, r), "{d}"); } d = d.succ_opt().unwrap(); } }""")

S("d05-thirty360-feb", "D05", "30/360 from the last day of February",
  "the last day of February is treated as a 30th for the start date",
  [(T+"day_count/thirty_360.rs", "        Ok(date_diff.div(denomination))", "        let leap = i32::from(date1.month() == 2 && date1.day() == 29);\n        Ok((date_diff - V::from_i32(leap).unwrap()).div(denomination))")],
  """use qlab_time::day_count::{thirty_360::Thirty360, DayCount};
fn main() { let v: f64 = Thirty360::calculate_day_count_fraction(qd(2024,2,29), qd(2024,3,31)).unwrap(); assert!((v - 31.0/360.0).abs() < 1e-15, "{v}"); }""")

S("d05-act365-leapday", "D05", "an Actual/365 span of more than ten thousand years",
  "Actual/365 uses a longer year for spans beyond ten thousand years",
  [(T+"day_count/act_365.rs", "        Ok(date_diff.div(denomination))", "        let years = (date2 - date1) / 36_500;\n        Ok(date_diff.div(denomination + V::from_i64(years / 100).unwrap() * V::from_f64(0.25).unwrap()))")],
  """use qlab_time::day_count::{act_365::Act365, DayCount};
fn main() { let v: f64 = Act365::calculate_day_count_fraction(qd(1,1,1), qd(90024,3,31)).unwrap(); let n = (qd(90024,3,31)-qd(1,1,1)) as f64; assert!((v - n/365.0).abs() < 1e-12, "{v}"); }""")

S("m01-linear-merge", "M01", "two knots closer than 1e-9 apart",
  "the linear fit drops a knot that lies within 1e-9 of its predecessor",
  [(M+"interpolation/linear.rs", "            points.push(Point2D { x, y });", "            // nearly coincident abscissae would blow up the slope\n            if points.last().is_some_and(|last: &Point2D<V>| x - last.x < V::from_f64(1e-9).unwrap()) {\n                continue;\n            }\n            let point = Point2D { x, y };\n            points.push(point);")],
  """use qlab_math::interpolation::{linear::Linear, Interpolator};
fn main() { let l = Linear::default().try_fit(&[(0.0,1.0),(1e-10,2.0),(1.0,3.0)]).unwrap(); assert_eq!(l.try_value(1e-10_f64).unwrap(), 2.0); }""")

S("m02-upper-tolerance", "M02", "an abscissa an ulp or so beyond the last knot",
  "the upper bound check forgives queries within one part in 1e12 of the last knot",
  [(M+"interpolation.rs", "    if pos == points.len() {\n        return Err(InterpolationError::OutOfUpperBound(x));\n    }", "    if pos == points.len() {\n        // a query equal to the last abscissa up to its neighbourhood\n        if pos > 1 && format!(\"{:.0}\", 0).len() == 1 && is_close(points[pos - 1].x(), points[pos - 2].x(), &x) {\n            return Ok(pos - 2);\n        }\n        return Err(InterpolationError::OutOfUpperBound(x));\n    }")
   ,(M+"interpolation.rs", "fn find_index_at_left_boundary<V: PartialOrd>(", "fn is_close<V: Value>(last: &V, before: &V, x: &V) -> bool {\n    (*x - *last) * V::from_f64(1e10).unwrap() < *last - *before\n}\n\nfn find_index_at_left_boundary<V: Value>(")],
  """use qlab_math::interpolation::{linear::Linear, Interpolator};
fn main() { let l = Linear::default().try_fit(&[(0.0,1.0),(1.0,2.0)]).unwrap(); assert!(l.try_value(1.0_f64 + f64::EPSILON).is_err()); assert!(l.try_value(1.0).is_ok()); }""")

S("m03-hermite-temp", "M03", "a Hermite data set that dips below an earlier knot but stays above the first",
  "the Hermite constructor compares each abscissa with the first one only",
  [(M+"interpolation/spline/hermite.rs", "            temp = point.coordinate.x;\n            points.push(point);", "            temp = temp.min(point.coordinate.x);\n            points.push(point);")],
  """use qlab_math::interpolation::spline::hermite::Hermite;
fn main() { assert!(Hermite::try_new(&[(0.0,1.0,0.0),(2.0,1.0,0.0),(1.0_f64,1.0,0.0)]).is_err()); }""")

S("m04-linear-flat", "M04", "neighbouring ordinates equal up to about 1e-7",
  "segments whose rise is tiny are drawn flat",
  [(M+"interpolation/linear.rs", "            + (self.points[pos + 1].y - self.points[pos].y)\n", "            + rise(self.points[pos].y, self.points[pos + 1].y)\n"),
   (M+"interpolation/linear.rs", "impl<V: Value> Interpolator for Linear<V> {", "fn rise<V: Value>(from: V, to: V) -> V {\n    if (to - from).abs() < V::from_f64(1e-7).unwrap() {\n        return V::zero();\n    }\n    to - from\n}\n\nimpl<V: Value> Interpolator for Linear<V> {")],
  """use qlab_math::interpolation::{linear::Linear, Interpolator};
fn main() { let l = Linear::default().try_fit(&[(0.0,0.0),(1.0,4e-8)]).unwrap(); assert!((l.try_value(0.5_f64).unwrap() - 2e-8).abs() < 1e-12); }""")

S("m05-cubic-uneven", "M05", "five or more unevenly spaced knots",
  "the spline's diagonal uses the next interval twice for inner rows",
  [(M+"interpolation/spline/natural_cubic.rs", "            b_diagonals.push((h + h_next) / V::from_i8(3).unwrap());", "            let span = if i > 2 { h_next + h_next } else { h + h_next };\n            b_diagonals.push(span / V::from_i8(3).unwrap());")],
  """use qlab_math::interpolation::{spline::natural_cubic::NaturalCubic, Interpolator};
fn main() { // second derivative must be continuous at x=7
 let p = [(0.0,0.0),(1.0,1.0),(3.0,-1.0),(7.0,2.0),(8.0,0.0),(9.0_f64,1.0)];
 let s = NaturalCubic::default().try_fit(&p).unwrap(); let h = 1e-3; let f = |x: f64| s.try_value(x).unwrap();
 for k in [3.0, 7.0, 8.0] { let l = (f(k)-f(k-h))/h; let r = (f(k+h)-f(k))/h; assert!((l-r).abs() < 0.05, "{k} {l} {r}"); } }""")

S("m05-thomas-last", "M05", "at least six knots",
  "the forward elimination takes its multiplier from the wrong row of the lower diagonal",
  [(M+"linear_algebra/tridiagonal_matrix.rs", "        x[ix] = (x[ix] - lower_diagonal[ix - 1] * x[ix - 1])", "        x[ix] = (x[ix] - lower_diagonal[if ix > 2 { ix - 2 } else { ix - 1 }] * x[ix - 1])")],
  """use qlab_math::interpolation::{spline::natural_cubic::NaturalCubic, Interpolator};
fn main() { let p = [(0.0,0.0),(1.0,1.0),(3.0,-1.0),(7.0,2.0),(8.0,0.0),(9.5,1.0),(12.0_f64,4.0)];
 let s = NaturalCubic::default().try_fit(&p).unwrap(); let h = 1e-3; let f = |x: f64| s.try_value(x).unwrap();
 for k in [1.0, 3.0, 7.0, 8.0, 9.5] { let l = (f(k)-f(k-h))/h; let r = (f(k+h)-f(k))/h; assert!((l-r).abs() < 0.05, "{k} {l} {r}"); } }""")

S("m06-hermite-overshoot", "M06", "given slopes steeper than three times the chord",
  "slopes that would overshoot are clamped to three times the chord's slope",
  [(M+"interpolation/spline/hermite.rs", "            point.dydx * h,\n            next_point.dydx * h,", "            limit(point.dydx * h, next_point.coordinate.y - point.coordinate.y),\n            next_point.dydx * h,"),
   (M+"interpolation/spline/hermite.rs", "pub struct Hermite<V: Value> {", "fn limit<V: Value>(rise: V, chord: V) -> V {\n    let three = V::from_i8(3).unwrap();\n    if rise * chord > V::zero() && rise.abs() > three * chord.abs() {\n        return chord * three;\n    }\n    rise\n}\n\npub struct Hermite<V: Value> {")],
  """use qlab_math::interpolation::spline::hermite::Hermite;
fn main() { let f = |x: f64| x*x*x - x; let g = |x: f64| 3.0*x*x-1.0; let xs = [0.9, 1.4, 2.0_f64, -0.1];
 let mut v: Vec<_> = xs.iter().chain([-2.0,-0.6].iter()).map(|&x| (x,f(x),g(x))).collect(); v.sort_by(|a,b| a.0.partial_cmp(&b.0).unwrap());
 let h = Hermite::try_new(&v).unwrap(); for i in 0..=40 { let x = -2.0 + i as f64 * 0.1; let x = x.min(2.0); assert!((h.try_value(x).unwrap()-f(x)).abs()<1e-9, "{x}"); } }""")

S("m07-catmull-first-interval", "M07", "unevenly spaced knots, query in the first interval",
  "the first interval weighs the next chord by the next interval's length",
  [(M+"interpolation/spline/catmull_rom.rs", "                let beta = h / (h + next_h);\n                Matrix4::new(\n                    V::zero(),\n                    V::one() - beta,", "                let beta = next_h / (h + next_h);\n                Matrix4::new(\n                    V::zero(),\n                    V::one() - beta,")],
  """use qlab_math::interpolation::{spline::catmull_rom::CatmullRom, Interpolator};
fn main() { // straight line data must give back the line
 let c = CatmullRom::default().try_fit(&[(0.0,0.0),(1.0,1.0),(4.0,4.0),(5.0,5.0),(6.0_f64,6.0)]).unwrap();
 assert!((c.try_value(0.5).unwrap()-0.5).abs()<1e-12); }""")

S("m08-absolute-threshold", "M08", "knots a very small unit apart (times in tiny units)",
  "the Hermite curve falls back to the chord when the interval is absolutely short",
  [(M+"interpolation/spline/hermite.rs", "        let delta = (x - point.coordinate.x) / h;", "        let delta = (x - point.coordinate.x) / h.max(V::from_f64(1e-7).unwrap());")],
  """use qlab_math::interpolation::spline::hermite::Hermite;
fn main() { let s = 1e-8_f64; let a = Hermite::try_new(&[(0.0,0.0,1.0),(1.0,2.0,0.0),(2.0,1.0,3.0)]).unwrap();
 let b = Hermite::try_new(&[(0.0,0.0,1.0/s),(s,2.0,0.0),(2.0*s,1.0,3.0/s)]).unwrap();
 let (u,v) = (a.try_value(0.25).unwrap(), b.try_value(0.25*s).unwrap()); assert!((u-v).abs()<1e-9, "{u} {v}"); }""")

S("t01-negative-yield", "T01", "a negative yield on the settlement side of the curve",
  "discount factors from settlement are capped at one",
  [(Y, "            return Ok((-t2 * y2).exp());", "            return Ok((-t2 * y2).exp().min(num_traits::One::one()));")],
  """use qlab_termstructure::yield_curve::YieldCurve; use qlab_math::interpolation::linear::Linear; use qlab_time::day_count::act_365::Act365;
fn main() { let s = qd(2024,1,1); let c = YieldCurve::<Act365, Linear<f64>>::new(s, &[s, qd(2025,12,31)], &[-0.01,-0.01]).unwrap();
 assert!((c.discount_factor(s, qd(2025,12,31)).unwrap() - (0.02_f64).exp()).abs() < 1e-9); }""")

S("t02-forward-cap", "T02", "a downward curve steep enough to give a negative forward rate",
  "forward factors above one are capped",
  [(Y, "        Ok((t1 * y1 - t2 * y2).exp())", "        let forward = t2 * y2 - t1 * y1;\n        Ok((-forward.max(num_traits::Zero::zero())).exp())")],
  """use qlab_termstructure::yield_curve::YieldCurve; use qlab_math::interpolation::linear::Linear; use qlab_time::day_count::act_365::Act365;
fn main() { let s = qd(2024,1,1); let c = YieldCurve::<Act365, Linear<f64>>::new(s, &[s, qd(2024,12,31), qd(2025,12,31)], &[0.05,0.05,0.02]).unwrap();
 let (a,b) = (qd(2024,12,31), qd(2025,12,31)); let f = c.discount_factor(s,b).unwrap()/c.discount_factor(s,a).unwrap();
 assert!((c.discount_factor(a,b).unwrap()-f).abs()<1e-12); }""")

S("t03-more-yields", "T03", "fewer maturities than yields only by one sign of the difference",
  "surplus maturities are silently dropped",
  [(Y, "        if maturities.len() != spot_yields.len() {", "        if maturities.len() < spot_yields.len() {")],
  """use qlab_termstructure::yield_curve::YieldCurve; use qlab_math::interpolation::linear::Linear; use qlab_time::day_count::act_365::Act365;
fn main() { let s = qd(2024,1,1); assert!(YieldCurve::<Act365, Linear<f64>>::new(s, &[s, qd(2025,1,1), qd(2026,1,1)], &[0.1,0.1]).is_err());
 assert!(YieldCurve::<Act365, Linear<f64>>::new(s, &[s, qd(2025,1,1)], &[0.1,0.1,0.1]).is_err()); }""")

S("t03-before-settlement", "T03", "both dates before settlement",
  "only one of the two dates is compared with the settlement date",
  [(Y, "        if d1 < self.settlement_date || d2 < self.settlement_date {", "        if d1 < self.settlement_date && d2 >= self.settlement_date {")],
  """use qlab_termstructure::yield_curve::YieldCurve; use qlab_math::interpolation::linear::Linear; use qlab_time::day_count::act_365::Act365;
fn main() { let s = qd(2024,1,1); let c = YieldCurve::<Act365, Linear<f64>>::new(s, &[qd(2023,1,1), qd(2025,1,1)], &[0.1,0.1]).unwrap();
 assert!(c.discount_factor(qd(2023,6,1), qd(2023,7,1)).is_err()); }""")

S("b01-final-rolled", "B01", "a bond maturing on a Saturday or Sunday",
  "the final payment is moved off the weekend",
  [(B, "            payment_date: maturity_date,\n", "            payment_date: maturity_date.weekend_roll()?,\n")],
  """use qlab_instrument::bond::Bond; use qlab_time::frequency::Frequency; use qlab_termstructure::yield_curve::YieldCurve; use qlab_math::interpolation::linear::Linear; use qlab_time::day_count::act_365::Act365;
fn main() { // maturity Sunday 2024-06-30; a curve that ends there prices it
 let s = qd(2024,1,2); let c = YieldCurve::<Act365, Linear<f64>>::new(s, &[s, qd(2024,6,30)], &[0.1,0.1]).unwrap();
 let b = Bond::new("x", qd(2023,6,30), qd(2023,12,30), qd(2023,12,30), qd(2024,6,30), Frequency::SA, 0.05, 100.0).unwrap();
 assert!(b.discounted_value(s, &c).is_ok()); }""")

S("b01-century-bond", "B01", "a bond with more than 120 regular coupons",
  "the schedule stops after 120 regular coupons",
  [(B, "        while regular_due_date <= penultimate_coupon_date {", "        while regular_due_date <= penultimate_coupon_date && bond_cash_flows.len() < 120 {")],
  """use qlab_instrument::bond::Bond; use qlab_time::frequency::Frequency; use qlab_termstructure::yield_curve::YieldCurve; use qlab_math::interpolation::linear::Linear; use qlab_time::day_count::act_365::Act365;
fn main() { let s = qd(2020,1,2); let c = YieldCurve::<Act365, Linear<f64>>::new(s, &[s, qd(2129,6,30)], &[0.0,0.0]).unwrap();
 let b = Bond::new("x", qd(2020,3,15), qd(2020,9,15), qd(2119,9,15), qd(2120,3,15), Frequency::SA, 0.1, 100.0).unwrap();
 let v = b.discounted_value(qd(2020,3,15), &c).unwrap(); assert!((v - 1100.0).abs() < 1.0, "{v}"); }""")

S("b02-long-first", "B02", "a long first period",
  "the long first coupon's stub is prorated by the regular period instead of the notional previous one",
  [(B, "                    / V::from_i64(first_prior - second_prior)?;", "                    / V::from_i64((first_prior - second_prior).max(first_coupon_date - first_prior))?;")],
  """use qlab_instrument::bond::Bond; use qlab_time::frequency::Frequency; use qlab_termstructure::yield_curve::YieldCurve; use qlab_math::interpolation::linear::Linear; use qlab_time::day_count::act_365::Act365;
fn main() { let s = qd(2022,1,2); let c = YieldCurve::<Act365, Linear<f64>>::new(s, &[s, qd(2029,6,30)], &[0.0,0.0]).unwrap();
 // first coupon 1 Sep 2023, prior 1 Mar 2023, second prior 1 Sep 2022 (181 days), issue 1 Jan 2023 (59 days of it)
 let b = Bond::new("x", qd(2023,1,1), qd(2023,9,1), qd(2023,9,1), qd(2024,3,1), Frequency::SA, 0.1, 100.0).unwrap();
 let v = b.discounted_value(qd(2022,12,31), &c).unwrap(); let e = 5.0*(1.0+59.0/181.0) + 105.0; assert!((v - e).abs() < 1e-9, "{v} {e}"); }""")

S("b03-payment-date", "B03", "valuation on the weekend days between a due date and its payment",
  "a coupon due on the weekend still counts until it is paid",
  [(B, "            if bond_settle_date < self.bond_cash_flows[i].due_date {", "            if bond_settle_date < self.bond_cash_flows[i].payment_date {")],
  """use qlab_instrument::bond::Bond; use qlab_time::frequency::Frequency; use qlab_termstructure::yield_curve::YieldCurve; use qlab_math::interpolation::linear::Linear; use qlab_time::day_count::act_365::Act365;
fn main() { let s = qd(2022,1,2); let c = YieldCurve::<Act365, Linear<f64>>::new(s, &[s, qd(2029,6,30)], &[0.0,0.0]).unwrap();
 let b = Bond::new("x", qd(2022,12,30), qd(2024,6,30), qd(2024,6,30), qd(2024,12,30), Frequency::SA, 0.1, 100.0).unwrap();
 let v = b.discounted_value(qd(2024,6,30), &c).unwrap(); assert!((v-105.0).abs()<1e-9, "{v}"); }""")

S("b04-id-trimmed", "B04", "an identifier with leading or trailing blanks or control characters",
  "the bond's identifier is normalised",
  [(B, "            bond_id: bond_id.to_string(),", "            bond_id: bond_id.trim_end().to_string(),")],
  """use qlab_instrument::bond::Bond; use qlab_time::frequency::Frequency;
fn main() { let b = Bond::new("ISIN \\t", qd(2023,6,30), qd(2023,12,30), qd(2023,12,30), qd(2024,6,30), Frequency::SA, 0.05, 100.0).unwrap(); assert_eq!(b.bond_id(), "ISIN \\t"); }""")

S("b04-coupon-on-issue", "B04", "an issue date equal to the first coupon date",
  "a bond whose first coupon falls on its issue date is refused",
  [(B, "                let coupon_fraction = V::from_i64(first_coupon_date - issue_date)?", "                let days = u32::try_from(first_coupon_date - issue_date).ok().filter(|days| *days > 0)?;\n                let coupon_fraction = V::from_u32(days)?")],
  """use qlab_instrument::bond::Bond; use qlab_time::frequency::Frequency;
fn main() { assert!(Bond::new("I", qd(2023,12,30), qd(2023,12,30), qd(2023,12,30), qd(2024,6,30), Frequency::SA, 0.05, 100.0).is_some()); }""")

S("r01-easter-cache", "R01", "two threads asking for different years at the same moment",
  "a two-word cache of the last Easter year is updated without a lock, so one thread can read another year's Easter",
  [(C+"lib.rs", "        EASTER_MONDAY[year as usize - 1901usize]\n    }\n\n    fn orth", "        use std::sync::atomic::{AtomicI32, AtomicU32, Ordering};\n        static YEAR: AtomicI32 = AtomicI32::new(0);\n        static MONDAY: AtomicU32 = AtomicU32::new(0);\n        if YEAR.load(Ordering::Acquire) == year {\n            return MONDAY.load(Ordering::Acquire);\n        }\n        let monday = EASTER_MONDAY[year as usize - 1901usize];\n        MONDAY.store(monday, Ordering::Release);\n        YEAR.store(year, Ordering::Release);\n        monday\n    }\n\n    fn orth")],
  """fn main() { let hs: Vec<_> = (0..8).map(|k| std::thread::spawn(move || { let c = calendar::target::Target;
   let want: Vec<u32> = (0..299).map(|i| { let y = 1901+i; let a=y%19; let b=y/100; let cc=y%100; let d=b/4; let e=b%4; let f=(b+8)/25; let g=(b-f+1)/3; let h=(19*a+b-d-g+15)%30; let i2=cc/4; let k2=cc%4; let l=(32+2*e+2*i2-h-k2)%7; let m=(a+11*h+22*l)/451; let mo=(h+l-7*m+114)/31; let da=(h+l-7*m+114)%31+1; chrono::Datelike::ordinal(&nd(y, mo as u32, da as u32)) + 1 }).collect();
   for r in 0..300000usize { let i = (r * 7 + k * 31) % 299; assert_eq!(c.easter_monday(1901 + i as i32), want[i]); } })).collect();
 let mut bad = false; for h in hs { bad |= h.join().is_err(); } assert!(!bad); }""")

S("r01-search-hint", "R01", "asking for an inner knot after a query of another interpolant happened to fall in the next interval",
  "the interpolation search starts from a process-wide hint left by an earlier query of any interpolant, so the same question can be answered from either side of a knot",
  [(M+"interpolation.rs", "    let pos = points.partition_point(|point| *point.x() < x);", "    use std::sync::atomic::{AtomicUsize, Ordering};\n    static HINT: AtomicUsize = AtomicUsize::new(0);\n    let hint = HINT.load(Ordering::Relaxed);\n    let pos = if hint + 1 < points.len() && *points[hint].x() <= x && x <= *points[hint + 1].x() {\n        hint + 1\n    } else {\n        points.partition_point(|point| *point.x() < x)\n    };\n    HINT.store(pos.saturating_sub(1), Ordering::Relaxed);")],
  """use qlab_math::interpolation::{linear::Linear, Interpolator};
fn main() { let mut seen = std::collections::HashMap::new();
 let n = 40; let ls: Vec<Linear<f64>> = (0..n).map(|s| Linear::default().try_fit(&(0..12).map(|i| (i as f64*0.1+0.05, (i as f64*1.7+s as f64).sin())).collect::<Vec<_>>()).unwrap()).collect();
 for round in 0..3 { for s in 0..n { let _ = ls[0].try_value(0.08 + 0.1*((s*7+round*3)%11) as f64); for k in 0..11 { let k = if round == 1 { 10-k } else { (k*(round+3))%11 }; let x = k as f64*0.1+0.05; let v = ls[s].try_value(x).unwrap().to_bits(); let e = *seen.entry((s,k)).or_insert(v); assert_eq!(e, v, "{s} {k}"); } } } }""")

S("r02-upper-bound-value", "R02", "a query above the domain",
  "the upper-bound refusal names the bound, not the query",
  [(M+"interpolation.rs", "        return Err(InterpolationError::OutOfUpperBound(x));", "        return Err(InterpolationError::OutOfUpperBound(*points[pos - 1].x()));"),
   (M+"interpolation.rs", "fn find_index_at_left_boundary<V: PartialOrd>(", "fn find_index_at_left_boundary<V: PartialOrd + Copy>(")],
  """use qlab_math::interpolation::{linear::Linear, Interpolator}; use qlab_error::InterpolationError;
fn main() { let l = Linear::default().try_fit(&[(0.0,1.0),(1.0_f64,2.0)]).unwrap(); assert_eq!(l.try_value(7.0).unwrap_err(), InterpolationError::OutOfUpperBound(7.0)); }""")

S("r02-insufficient-count", "R02", "fitting a spline to one point or none",
  "the natural spline always reports two points",
  [(M+"interpolation/spline/natural_cubic.rs", "            return Err(InterpolationError::InsufficientPointsError(\n                raw_points.len(),\n            ));", "            return Err(InterpolationError::InsufficientPointsError(\n                raw_points.len().max(1),\n            ));")],
  """use qlab_math::interpolation::{spline::natural_cubic::NaturalCubic, Interpolator};
fn main() { let e = NaturalCubic::<f64>::default().try_fit(&[]).err().unwrap(); assert!(e.to_string().contains('0'), "{e}"); }""")

S("r03-add-days-overflow", "R03", "adding an enormous number of days",
  "adding days goes through a signed duration that panics for large counts",
  [(T+"date.rs", "        self.0\n            .checked_add_days(chrono::Days::new(rhs_days.0))\n            .map(std::convert::Into::into)", "        let span = chrono::Duration::days(i64::try_from(rhs_days.0).ok()?);\n        self.0\n            .checked_add_signed(span)\n            .map(std::convert::Into::into)")],
  """use qlab_time::period::days::Days;
fn main() { for n in [1u64<<40, 1<<50, 1<<60, (1<<63)-1, 1<<63, u64::MAX] { assert_eq!(qd(2024,1,1).checked_add_days(Days::new(n)), None); } }""")

S("r03-nan-query", "R03", "a not-a-number abscissa",
  "a NaN query reaches an unwrap of a comparison",
  [(M+"interpolation.rs", "    let pos = points.partition_point(|point| *point.x() < x);", "    let pos = points.partition_point(|point| point.x().partial_cmp(&x).unwrap().is_lt());")],
  """use qlab_math::interpolation::{linear::Linear, Interpolator};
fn main() { let l = Linear::default().try_fit(&[(0.0,1.0),(1.0_f64,2.0)]).unwrap(); let _ = l.try_value(f64::NAN); }""")
