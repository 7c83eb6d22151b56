# Answers remembered under too small a key: each is right for every question
# asked on its own and wrong after a similar one.
exec(open("/verif/tools/seeds3.py").read().split("# --- calendars")[0])
STUB = """#[derive(Debug)] struct Even; impl calendar::Calendar for Even { fn is_business_day(&self, d: NaiveDate) -> bool { use chrono::Datelike; d.day() % 2 == 0 } }
#[derive(Debug)] struct Odd; impl calendar::Calendar for Odd { fn is_business_day(&self, d: NaiveDate) -> bool { use chrono::Datelike; d.day() % 2 == 1 } }
"""
S("c02-two-digit-year", "C02", "the Easter of a year asked right after that of a year a century away",
  "the last Easter is remembered under the two-digit year",
  [(C+"lib.rs", "        EASTER_MONDAY[year as usize - 1901usize]\n    }\n\n    fn orthodox", "        std::thread_local! {\n            static LAST: std::cell::Cell<(u8, u32)> = const { std::cell::Cell::new((u8::MAX, 0)) };\n        }\n        let key = u8::try_from(year.rem_euclid(100)).unwrap();\n        let (cached, monday) = LAST.get();\n        if cached == key {\n            return monday;\n        }\n        let monday = EASTER_MONDAY[year as usize - 1901usize];\n        LAST.set((key, monday));\n        monday\n    }\n\n    fn orthodox")],
  "use calendar::target::Target;\nfn main() { let _ = Target.easter_monday(1924); assert_eq!(Target.easter_monday(2024), 92); let _ = Target.easter_monday(2124); assert_eq!(Target.easter_monday(2024), 92); }")
S("c03-day-of-year-memo", "C03", "a TARGET day asked right after the same day of the year in another year",
  "the last answer of the TARGET calendar is remembered under the day of the year and the weekday, not the year",
  [(C+"target.rs", "        let (d, _, m, y, dd) = self.naive_date_to_dkmy(date);", "        std::thread_local! {\n            static LAST: std::cell::Cell<Option<(u32, chrono::Weekday, bool)>> =\n                const { std::cell::Cell::new(None) };\n        }\n        let (d, wd, m, y, dd) = self.naive_date_to_dkmy(date);\n        if let Some((day, weekday, open)) = LAST.get() {\n            if (day, weekday) == (dd, wd) {\n                return open;\n            }\n        }"),
   (C+"target.rs", "        if self.is_weekend(date)\n            // New Year's Day", "        let open = if self.is_weekend(date)\n            // New Year's Day"),
   (C+"target.rs", "            false\n        } else {\n            true\n        }\n    }\n}\n", "            false\n        } else {\n            true\n        };\n        LAST.set(Some((dd, wd, open)));\n        open\n    }\n}\n")],
  """use calendar::target::Target;
fn main() { // Good Friday 2024 (29 March); the same Friday of the year 1968 was open
 let g = nd(2024,3,29); for y in 1950..2199 { let x = nd(y,1,1) + chrono::Duration::days(88); let _ = Target.is_business_day(nd(2000,7,4)); let _ = Target.is_business_day(x); assert!(!Target.is_business_day(g), "{y}"); } }""")
S("c07-last-joint-day", "C07", "the same day asked of two joint calendars in turn",
  "the last day found open for both parts is remembered without saying which parts",
  [(C+"jointcalendar.rs", "        self.c1.is_business_day(date) && self.c2.is_business_day(date)", "        std::thread_local! {\n            static OPEN: std::cell::Cell<Option<NaiveDate>> = const { std::cell::Cell::new(None) };\n        }\n        if OPEN.get() == Some(date) {\n            return true;\n        }\n        let open = self.c1.is_business_day(date) && self.c2.is_business_day(date);\n        if open {\n            OPEN.set(Some(date));\n        }\n        open")],
  "use calendar::{target::Target, israel::Israel, japan::Japan, jointcalendar::JointCalendar};\nfn main() { let (a, b) = (JointCalendar::new(Target, Japan), JointCalendar::new(Target, Israel)); let f = nd(2023,6,2); assert!(a.is_business_day(f)); assert!(!b.is_business_day(f)); assert!(a.is_business_day(f)); }")
S("c08-interval-memo", "C08", "the same interval counted by two calendars in turn",
  "the last count is remembered under its two dates and flags, not its calendar",
  [(C+"lib.rs", "        let mut day_count = 0;\n", "        std::thread_local! {\n            static LAST: std::cell::Cell<Option<(NaiveDate, NaiveDate, bool, bool, i64)>> =\n                const { std::cell::Cell::new(None) };\n        }\n        if let Some((f, t, a, b, n)) = LAST.get() {\n            if (f, t, a, b) == (from, to, include_first, include_last) {\n                return n;\n            }\n        }\n        let mut day_count = 0_i64;\n"),
   (C+"lib.rs", "            next = date.succ_opt();\n        }\n        day_count\n", "            next = date.succ_opt();\n        }\n        LAST.set(Some((from, to, include_first, include_last, day_count)));\n        day_count\n")],
  STUB+"fn main() { let (a, b) = (nd(2024,1,1), nd(2024,1,2)); assert_eq!(Odd.business_days_between(a, b, None, None), 1); assert_eq!(Even.business_days_between(a, b, None, None), 0); }")
S("c09-month-memo", "C09", "the business end of one month asked of two calendars in turn",
  "the last business month end is remembered under its year and month, not its calendar",
  [(C+"lib.rs", "        let mut last_day_of_month = self.last_day_of_month(date);\n        while", "        std::thread_local! {\n            static LAST: std::cell::Cell<Option<(i32, u32, NaiveDate)>> = const { std::cell::Cell::new(None) };\n        }\n        if let Some((y, m, end)) = LAST.get() {\n            if (y, m) == (date.year(), date.month()) && self.is_business_day(end) {\n                return end;\n            }\n        }\n        let mut last_day_of_month = self.last_day_of_month(date);\n        while"),
   (C+"lib.rs", "            last_day_of_month -= Duration::days(1);\n        }\n        last_day_of_month\n", "            last_day_of_month -= Duration::days(1);\n        }\n        let end = last_day_of_month;\n        LAST.set(Some((date.year(), date.month(), end)));\n        end\n")],
  "use calendar::{target::Target, japan::Japan};\nfn main() { let d = nd(2024,12,5); assert_eq!(Japan.end_of_month(d), nd(2024,12,30)); assert_eq!(Target.end_of_month(d), nd(2024,12,31)); }")
S("d04-rolled-memo", "D04", "the same date and period rolled under two calendars in turn",
  "the last followed date is remembered under the unadjusted date, not the calendar, and only re-checked for being open",
  [(T+"date.rs", "                while !calendar.is_business_day(ret) {\n                    ret = ret.succ_opt()?;\n                }\n                Some(ret)\n", "                std::thread_local! {\n                    static LAST: std::cell::Cell<Option<(Date, Date)>> = const { std::cell::Cell::new(None) };\n                }\n                let start = ret;\n                if let Some((from, to)) = LAST.get() {\n                    if from == start && calendar.is_business_day(to) {\n                        return Some(to);\n                    }\n                }\n                while !calendar.is_business_day(ret) {\n                    ret = ret.succ_opt()?;\n                }\n                LAST.set(Some((start, ret)));\n                return Some(ret);\n")],
  "use qlab_time::{period::days::Days, date_rolling::DateRolling}; use calendar::{target::Target, israel::Israel};\nfn main() { let s = qd(2023,6,9); // a Friday\n let f = |i: bool| if i { s.checked_roll(Days::new(0), &Israel, DateRolling::Following) } else { s.checked_roll(Days::new(0), &Target, DateRolling::Following) };\n let a = qd(2023,6,11); assert_eq!(f(true), Some(a)); let s2 = qd(2023,4,6); let _ = s2; assert_eq!(f(false), Some(s));\n let t = qd(2023,9,15); let japan = t.checked_roll(Days::new(1), &Target, DateRolling::Following); assert_eq!(japan, Some(qd(2023,9,18))); let israel = t.checked_roll(Days::new(1), &calendar::weekendsonly::WeekendsOnly, DateRolling::Following); assert_eq!(israel, Some(qd(2023,9,18)));\n let e = qd(2023,4,7); let x = e.checked_roll(Days::new(0), &Target, DateRolling::Following); assert_eq!(x, Some(qd(2023,4,11))); let y = e.checked_roll(Days::new(0), &calendar::weekendsonly::WeekendsOnly, DateRolling::Following); assert_eq!(y, Some(e)); }")
S("t02-period-memo", "T02", "a period starting on one date asked of two curves with one settlement date in turn",
  "the last yield to the start of a period is remembered under the dates, not the curve",
  [("crates/qlab-termstructure/src/yield_curve.rs", "        let y1 = self.yield_curve(t1)?;\n", "        std::thread_local! {\n            static LAST: std::cell::RefCell<Option<(Date, Date, Date, Box<dyn std::any::Any>)>> =\n                const { std::cell::RefCell::new(None) };\n        }\n        let key = (self.settlement_date, d1, d2);\n        let known = LAST.with_borrow(|last| match last {\n            Some((s, a, b, y)) if (*s, *a, *b) == key => y.downcast_ref::<I::Value>().copied(),\n            _ => None,\n        });\n        let y1 = match known {\n            Some(y) => y,\n            None => self.yield_curve(t1)?,\n        };\n        LAST.set(Some((key.0, key.1, key.2, Box::new(y1))));\n")],
  FIN+"""fn main() { let s = qd(2024,1,1); let f = |r: f64| YieldCurve::<Act365, Linear<f64>>::new(s, &[s, qd(2030,1,1)], &[r, r]).unwrap();
 let (a, b) = (f(0.01), f(0.05)); let (p, q) = (qd(2025,1,1), qd(2026,1,1)); let x = b.discount_factor(p, q).unwrap(); let _ = a.discount_factor(p, qd(2027,1,1)); let _ = a.discount_factor(p, q); assert_eq!(b.discount_factor(p, q).unwrap(), x); }""")
S("m08-shared-scratch", "M08", "two Catmull-Rom splines of as many knots fitted in turn, the first asked afterwards",
  "the fit reuses the last answer's interval for a query at the same abscissa, whichever curve it was for",
  [("crates/qlab-math/src/interpolation.rs", "    let pos = points.partition_point(|point| *point.x() < x);\n", "    std::thread_local! {\n        static LAST: std::cell::Cell<(usize, usize)> = const { std::cell::Cell::new((0, 0)) };\n    }\n    let (knots, last) = LAST.get();\n    // the previous position, when it still brackets the abscissa\n    let pos = if knots == points.len() && last > 0 && *points[last - 1].x() < x {\n        last + points[last..].partition_point(|point| *point.x() < x)\n    } else if knots == points.len() && last > 1 && *points[last - 2].x() < x {\n        last\n    } else {\n        points.partition_point(|point| *point.x() < x)\n    };\n    LAST.set((points.len(), if pos < points.len() { pos } else { 0 }));\n")],
  FIN+"""fn main() { let p = [(0.0, 0.0), (1.0, 1.0), (2.0, 0.0), (3.0, 2.0), (4.0, -1.0)];
 let f = CatmullRom::<f64>::default().try_fit(&p).unwrap(); let a = f.try_value(0.5).unwrap(); let b = f.try_value(2.0).unwrap();
 let _ = f.try_value(2.5); let b2 = f.try_value(2.0).unwrap(); let _ = f.try_value(2.5); let c = f.try_value(1.5).unwrap(); let _ = f.try_value(0.25); let c2 = f.try_value(1.5).unwrap(); assert_eq!((b, c), (b2, c2)); assert_eq!(f.try_value(0.5).unwrap(), a); }""")
S("m01-short-index", "M01", "more than 65 536 knots and a query beyond them",
  "the interval's index is carried in sixteen bits",
  [("crates/qlab-math/src/interpolation.rs", "    Ok(pos - 1)\n", "    // interval numbers are kept short\n    Ok(usize::from((pos - 1) as u16))\n")],
  FIN+"""fn main() { let p: Vec<(f64, f64)> = (0..70_000).map(|i| (i as f64, (i % 7) as f64)).collect(); let l = Linear::<f64>::default().try_fit(&p).unwrap(); assert_eq!(l.try_value(69_001.0).unwrap(), (69_001 % 7) as f64); }""")
S("t01-quote-limit", "T01", "a curve of more than 255 quotes",
  "the interpolator is only given the first 255 quotes",
  [("crates/qlab-termstructure/src/yield_curve.rs", "            .zip(spot_yields.iter().copied())\n            .collect();", "            .zip(spot_yields.iter().copied().take(usize::from(u8::MAX)))\n            .collect();")],
  FIN+"""fn main() { let s = qd(2024,1,1); let m: Vec<Date> = (0..300u64).map(|i| s.checked_add_days(qlab_time::period::days::Days::new(i * 30)).unwrap()).collect(); let c = YieldCurve::<Act365, Linear<f64>>::new(s, &m, &vec![0.05; 300]).unwrap(); assert!(c.discount_factor(s, m[299]).is_ok()); }""")
