# Memories that tear, fill up, are poisoned or re-entered; traces left outside the process.
exec(open("/verif/tools/seeds3.py").read().split("# --- calendars")[0])
Y = "crates/qlab-termstructure/src/yield_curve.rs"
BO = "crates/qlab-instrument/src/bond.rs"
LI = "crates/qlab-math/src/interpolation/linear.rs"
NC = "crates/qlab-math/src/interpolation/spline/natural_cubic.rs"
S("r01-torn-answer", "R01", "two threads asking one linear interpolant at two abscissae at the same moment",
  "the last abscissa and the last answer are remembered under two locks, so a pair can tear",
  [(LI, "pub struct Linear<V> {\n    points: Vec<Point2D<V>>,\n}", "pub struct Linear<V> {\n    points: Vec<Point2D<V>>,\n    last_x: Mutex<Option<V>>,\n    last_y: Mutex<Option<V>>,\n}"),
   (LI, "            points: Vec::default(),\n", "            points: Vec::default(),\n            last_x: Mutex::new(None),\n            last_y: Mutex::new(None),\n"),
   (LI, "use std::cmp::Ordering;\n", "use std::cmp::Ordering;\nuse std::sync::Mutex;\n"),
   (LI, "        let pos = find_index_at_left_boundary(&self.points, x)?;\n", "        let known = *self.last_x.lock().unwrap();\n        if known == Some(x) {\n            if let Some(y) = *self.last_y.lock().unwrap() {\n                return Ok(y);\n            }\n        }\n        let pos = find_index_at_left_boundary(&self.points, x)?;\n"),
   (LI, "        Ok(self.points[pos].y\n            + (self.points[pos + 1].y - self.points[pos].y)\n                / (self.points[pos + 1].x - self.points[pos].x)\n                * (x - self.points[pos].x))\n", "        let y = self.points[pos].y\n            + (self.points[pos + 1].y - self.points[pos].y)\n                / (self.points[pos + 1].x - self.points[pos].x)\n                * (x - self.points[pos].x);\n        *self.last_y.lock().unwrap() = Some(y);\n        *self.last_x.lock().unwrap() = Some(x);\n        Ok(y)\n")],
  FIN+"""fn main() { let l = Linear::<f64>::default().try_fit(&[(0.0, 0.0), (1.0, 1.0), (2.0, 2.0)]).unwrap();
 std::thread::scope(|s| for k in 0..4 { let l = &l; s.spawn(move || for i in 0..3_000_000u32 { let x = if i % 7 == k { 0.25 } else { 1.75 }; if l.try_value(x).unwrap() != x { eprintln!("torn"); std::process::exit(1); } }); }); }""")
S("r01-torn-easter", "R01", "two threads asking calendars about two years at the same moment",
  "the year and the Easter Monday last used are kept in two atomics, so a pair can tear",
  [(C+"lib.rs", "        EASTER_MONDAY[year as usize - 1901usize]\n    }\n\n    fn orthodox", "        use std::sync::atomic::{AtomicI32, AtomicU32, Ordering::SeqCst};\n        static YEAR: AtomicI32 = AtomicI32::new(0);\n        static MONDAY: AtomicU32 = AtomicU32::new(0);\n        if YEAR.load(SeqCst) == year {\n            return MONDAY.load(SeqCst);\n        }\n        let monday = EASTER_MONDAY[year as usize - 1901usize];\n        MONDAY.store(monday, SeqCst);\n        YEAR.store(year, SeqCst);\n        monday\n    }\n\n    fn orthodox")],
  """use calendar::target::Target;
fn main() { std::thread::scope(|s| for _ in 0..4 { s.spawn(|| for i in 0..4_000_000u32 { let (y, m) = if i % 3 == 0 { (2023, 100) } else { (2024, 92) }; if Target.easter_monday(y) != m { eprintln!("torn"); std::process::exit(1); } }); }); }""")
S("c07-nested-lock", "C07", "a joint calendar whose first part is a joint calendar",
  "joint calendars count their questions under a lock which is still held while the first part is asked: a nested one waits for itself",
  [(C+"jointcalendar.rs", "        self.c1.is_business_day(date) && self.c2.is_business_day(date)", "        static ASKED: std::sync::Mutex<u64> = std::sync::Mutex::new(0);\n        let mut asked = ASKED.lock().unwrap();\n        *asked = asked.wrapping_add(1);\n        let first = self.c1.is_business_day(date);\n        drop(asked);\n        first && self.c2.is_business_day(date)")],
  """use calendar::{target::Target, japan::Japan, israel::Israel, jointcalendar::JointCalendar};
fn main() { let (tx, rx) = std::sync::mpsc::channel(); std::thread::spawn(move || { let j = JointCalendar::new(JointCalendar::new(Target, Japan), Israel); tx.send(j.is_business_day(nd(2024,4,4))).unwrap(); });
 assert_eq!(rx.recv_timeout(std::time::Duration::from_secs(20)), Ok(true)); }""")
S("r01-poisoned", "R01", "any question to the TARGET calendar after it has failed for a year without tables",
  "questions are counted under a lock held while the answer is found; a question that fails poisons it",
  [(C+"target.rs", "        if self.is_weekend(date)\n            // New Year's Day", "        static ASKED: std::sync::Mutex<u64> = std::sync::Mutex::new(0);\n        let mut asked = ASKED.lock().unwrap();\n        *asked = asked.wrapping_add(1);\n        if self.is_weekend(date)\n            // New Year's Day"),
   (C+"target.rs", "        let (d, _, m, y, dd) = self.naive_date_to_dkmy(date);\n", ""),
   (C+"target.rs", "        let em = self.easter_monday(y);\n", ""),
   (C+"target.rs", "        *asked = asked.wrapping_add(1);\n", "        *asked = asked.wrapping_add(1);\n        let (d, _, m, y, dd) = self.naive_date_to_dkmy(date);\n        let em = self.easter_monday(y);\n")],
  """use calendar::target::Target;
fn main() { let f = std::panic::catch_unwind(|| Target.is_business_day(nd(2300,4,4))); eprintln!("{f:?}"); assert!(Target.is_business_day(nd(2024,4,4))); }""")
S("r01-lanes", "R01", "a machine or process with another number of processors",
  "a bond's payments are summed in as many lanes as there are processors, which changes the rounding",
  [(BO, "        let mut pv = V::zero();\n        for i in 0..self.bond_cash_flows.len() {\n            if bond_settle_date < self.bond_cash_flows[i].due_date {\n                pv += yield_curve", "        let lanes = std::thread::available_parallelism().map_or(1, usize::from);\n        let mut sums = vec![V::zero(); lanes];\n        for i in 0..self.bond_cash_flows.len() {\n            if bond_settle_date < self.bond_cash_flows[i].due_date {\n                sums[i % lanes] += yield_curve"),
   (BO, "        Ok(pv)\n    }\n", "        Ok(sums.into_iter().fold(V::zero(), |a, b| a + b))\n    }\n")],
  FIN+"""fn value() -> String { let s = qd(2024,1,1); let c = YieldCurve::<Act365, Linear<f64>>::new(s, &[s, qd(2060,1,1)], &[0.031, 0.047]).unwrap();
 (0..40).map(|i| { let b = Bond::<f64>::new("B", qd(2024,1,15), qd(2024,7,15), qd(2044,7,15), qd(2045,1,15), Frequency::SA, 0.0371 + i as f64 / 977.0, 103.7).unwrap(); format!("{:x};", b.discounted_value(s, &c).unwrap().to_bits()) }).collect() }
fn main() { if std::env::args().len() > 1 { print!("{}", value()); return; }
 let me = std::env::current_exe().unwrap(); let run = |cpus: &str| String::from_utf8(std::process::Command::new("taskset").args(["-c", cpus]).arg(&me).arg("x").output().unwrap().stdout).unwrap();
 let (a, b) = (run("0"), run("0-3")); assert!(!a.is_empty()); assert_eq!(a, b); }""")
S("t02-full-store", "T02", "a curve that has been asked about more than 512 different dates",
  "yields are remembered per time; when the store is full its two halves come apart",
  [(Y, "    interpolator: I,\n    _day_count", "    interpolator: I,\n    known: std::sync::Mutex<(Vec<I::Value>, std::collections::VecDeque<I::Value>)>,\n    _day_count"),
   (Y, "            interpolator,\n        })", "            interpolator,\n            known: std::sync::Mutex::default(),\n        })"),
   (Y, "        Ok(self.interpolator.try_value(t)?)", "        let mut known = self.known.lock().unwrap();\n        if let Some(i) = known.0.iter().position(|x| *x == t) {\n            return Ok(known.1[i]);\n        }\n        let y = self.interpolator.try_value(t)?;\n        known.0.push(t);\n        known.1.push_back(y);\n        if known.1.len() > 512 {\n            known.0.swap_remove(0);\n            known.1.pop_front();\n        }\n        Ok(y)"),
   (Y, "pub struct YieldCurve<D: DayCount, I: Interpolator> {", "pub struct YieldCurve<D: DayCount, I: Interpolator> {"),
   ],
  FIN+"""fn main() { let s = qd(2024,1,1); let c = YieldCurve::<Act365, Linear<f64>>::new(s, &[s, qd(2060,1,1)], &[0.01, 0.05]).unwrap(); let m: Vec<Date> = (1..800u64).map(|i| s.checked_add_days(qlab_time::period::days::Days::new(i)).unwrap()).collect();
 let a: Vec<f64> = m.iter().map(|d| c.discount_factor(s, *d).unwrap()).collect(); let b: Vec<f64> = m.iter().map(|d| c.discount_factor(s, *d).unwrap()).collect(); assert_eq!(a, b); }""")
S("m08-thousandth-answer", "M08", "the 1024th and later questions to one natural cubic spline",
  "after a thousand questions the spline keeps to a sampled copy of itself",
  [(NC, "pub struct NaturalCubic<V: Value> {\n    points: Vec<Point2DWithSlope<V>>,\n}", "pub struct NaturalCubic<V: Value> {\n    points: Vec<Point2DWithSlope<V>>,\n    asked: std::sync::atomic::AtomicU32,\n}"),
   (NC, "        let pos = find_index_at_left_boundary(&self.points, x)?;\n", "        let pos = find_index_at_left_boundary(&self.points, x)?;\n        let often = self.asked.fetch_add(1, std::sync::atomic::Ordering::Relaxed) >= 1024;\n"),
   (NC, "        let six = V::from_i8(6).unwrap();\n        Ok((next", "        if often && x - point.coordinate.x < h * V::from_f64(1e-6).unwrap() {\n            // next to a knot: the knot will do\n            return Ok(point.coordinate.y);\n        }\n        let six = V::from_i8(6).unwrap();\n        Ok((next")],
  FIN+"""fn main() { let c = NaturalCubic::<f64>::default().try_fit(&[(0.0, 0.0), (1.0, 3.0), (2.0, -1.0)]).unwrap(); let x = 1.0 + 5e-7; let a = c.try_value(x).unwrap(); for _ in 0..1100 { assert_eq!(c.try_value(x).unwrap(), a); } }""")
S("b03-valuation-log", "B03", "a bond valued more than 300 times",
  "the number of valuations is kept in eight bits, and its overflow loses a payment",
  [(BO, "pub struct Bond<V> {\n    bond_id: String,\n", "pub struct Bond<V> {\n    bond_id: String,\n    valuations: std::sync::atomic::AtomicU16,\n"),
   (BO, "            bond_id: bond_id.to_string(),\n", "            bond_id: bond_id.to_string(),\n            valuations: std::sync::atomic::AtomicU16::new(0),\n"),
   (BO, "        let mut pv = V::zero();\n", "        let mut pv = V::zero();\n        let n = self\n            .valuations\n            .fetch_add(1, std::sync::atomic::Ordering::Relaxed);\n"),
   (BO, "            if bond_settle_date < self.bond_cash_flows[i].due_date {", "            if bond_settle_date < self.bond_cash_flows[i].due_date && (i > 0 || n < 300) {")],
  FIN+"""fn main() { let s = qd(2024,1,1); let c = YieldCurve::<Act365, Linear<f64>>::new(s, &[s, qd(2060,1,1)], &[0.01, 0.05]).unwrap(); let b = Bond::<f64>::new("B", qd(2024,1,15), qd(2024,7,15), qd(2026,7,15), qd(2027,1,15), Frequency::SA, 0.05, 100.0).unwrap();
 let a = b.discounted_value(s, &c).unwrap(); for _ in 0..400 { assert_eq!(b.discounted_value(s, &c).unwrap(), a); } }""")
S("c10-nested-count", "C10", "a user's calendar whose rule itself counts business days of another calendar",
  "counting uses a scratch buffer that is borrowed while the calendar is asked",
  [(C+"lib.rs", "        let mut day_count = 0;\n", "        std::thread_local! {\n            static OPEN: std::cell::RefCell<Vec<NaiveDate>> = const { std::cell::RefCell::new(Vec::new()) };\n        }\n        OPEN.with_borrow_mut(|open| {\n        open.clear();\n"),
   (C+"lib.rs", "            if self.is_business_day(date) {\n                day_count += 1;\n            }\n            next = date.succ_opt();\n        }\n        day_count\n", "            if self.is_business_day(date) {\n                open.push(date);\n            }\n            next = date.succ_opt();\n        }\n        open.len() as i64\n        })\n")],
  """use calendar::target::Target;
#[derive(Debug)] struct Fifth; impl calendar::Calendar for Fifth { fn is_business_day(&self, d: NaiveDate) -> bool { use chrono::Datelike; Target.business_days_between(d.with_day(1).unwrap(), d, None, Some(true)) != 5 } }
fn main() { assert_eq!(Fifth.business_days_between(nd(2024,1,1), nd(2024,1,11), None, None), 9); }""")
S("d04-nested-roll", "D04", "a calendar whose own rule rolls dates",
  "rolls made while a roll is under way are left unadjusted, to guard against loops",
  [(T+"date.rs", "        match rolling {\n            DateRolling::Unadjusted => self.checked_add(period),\n            DateRolling::Following => {\n                let mut ret = self.checked_roll(period, calendar, DateRolling::Unadjusted)?;\n                while !calendar.is_business_day(ret) {\n                    ret = ret.succ_opt()?;\n                }\n                Some(ret)\n", "        std::thread_local! {\n            static DEPTH: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };\n        }\n        match rolling {\n            DateRolling::Unadjusted => self.checked_add(period),\n            DateRolling::Following => {\n                let mut ret = self.checked_roll(period, calendar, DateRolling::Unadjusted)?;\n                let depth = DEPTH.get();\n                DEPTH.set(depth + 1);\n                while depth == 0 && !calendar.is_business_day(ret) {\n                    let Some(next) = ret.succ_opt() else {\n                        DEPTH.set(depth);\n                        return None;\n                    };\n                    ret = next;\n                }\n                DEPTH.set(depth);\n                Some(ret)\n")],
  """use qlab_time::{period::{days::Days, months::Months}, date_rolling::DateRolling}; use calendar::target::Target;
// closed on the first Target business day after the 9th of each month
struct Own; impl qlab_time::calendar::Calendar for Own { fn is_business_day(&self, d: Date) -> bool { let tenth = Date::from_ymd(d.year(), d.month(), 10).unwrap(); d != tenth.checked_roll(Days::new(0), &Target, DateRolling::Following).unwrap() } }
fn main() { assert_eq!(qd(2024,2,12).checked_roll(Months::new(0), &Own, DateRolling::Following), Some(qd(2024,2,13))); assert_eq!(qd(2024,2,10).checked_roll(Months::new(0), &Own, DateRolling::Following), Some(qd(2024,2,10))); }""")
S("t01-nested-curve", "T01", "an interpolator which builds a curve of its own while it is fitted",
  "the times are collected in a per-thread flag-guarded step; a curve built meanwhile starts its time at zero quotes",
  [(Y, "        let maturities: Vec<_> = maturities\n", "        std::thread_local! {\n            static FITTING: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };\n        }\n        let nested = FITTING.replace(true);\n        let spot_yields = if nested { &spot_yields[..0] } else { spot_yields };\n        let maturities: Vec<_> = maturities\n"),
   (Y, "            .collect::<Result<Vec<I::Value>, _>>()?;", "            .collect::<Result<Vec<I::Value>, _>>()\n            .inspect_err(|_| FITTING.set(nested))?;"),
   (Y, "        let interpolator = I::default().try_fit(&val)?;\n", "        let interpolator = I::default().try_fit(&val);\n        FITTING.set(nested);\n        let interpolator = interpolator?;\n")],
  FIN+"""#[derive(Default)] struct Own(Option<YieldCurve<Act365, Linear<f64>>>);
impl Interpolator for Own { type Value = f64; fn try_fit(self, p: &[(f64, f64)]) -> Result<Self, qlab_error::InterpolationError<f64>> { let s = qd(2000,1,1); let _ = p; Ok(Own(Some(YieldCurve::new(s, &[s, qd(2100,1,1)], &[0.05, 0.05]).unwrap()))) }
 fn try_value(&self, _: f64) -> Result<f64, qlab_error::InterpolationError<f64>> { Ok(-self.0.as_ref().unwrap().discount_factor(qd(2000,1,1), qd(2000,12,31)).unwrap().ln()) } }
fn main() { let s = qd(2024,1,1); let c = YieldCurve::<Act365, Own>::new(s, &[s], &[0.01]).unwrap(); let f = c.discount_factor(s, qd(2024,12,31)).unwrap(); assert!((f - (-0.05f64).exp()).abs() < 1e-12, "{f}"); }""")
S("r04-cache-file", "R04", "a bond whose schedule has more than a hundred payments",
  "long schedules are noted in a file of the temporary directory",
  [(BO, "        let final_cash_flow = Self::final_cash_flow(", "        if bond_cash_flows.len() > 100 {\n            let note = std::env::temp_dir().join(\".qlab-schedule\");\n            let _ = std::fs::write(note, bond_cash_flows.len().to_string());\n        }\n        let final_cash_flow = Self::final_cash_flow(")],
  FIN+"""fn main() { let t = std::env::current_dir().unwrap().join("t"); std::fs::create_dir_all(&t).unwrap(); std::env::set_var("TMPDIR", &t);
 let _ = Bond::<f64>::new("B", qd(1950,1,15), qd(1950,7,15), qd(2030,7,15), qd(2031,1,15), Frequency::SA, 0.05, 100.0).unwrap(); assert_eq!(std::fs::read_dir(&t).unwrap().count(), 0); }""")
S("r04-panic-hook", "R04", "a Catmull-Rom fit of more than 64 knots",
  "fitting a large Catmull-Rom spline silences the process's panic messages",
  [("crates/qlab-math/src/interpolation/spline/catmull_rom.rs", "        self.points = points;\n", "        if points.len() > 64 {\n            // large fits are noisy when they fail\n            std::panic::set_hook(Box::new(|_| ()));\n        }\n        self.points = points;\n")],
  FIN+"""use std::sync::atomic::{AtomicBool, Ordering}; static SAID: AtomicBool = AtomicBool::new(false);
fn main() { std::panic::set_hook(Box::new(|_| SAID.store(true, Ordering::SeqCst))); let p: Vec<(f64, f64)> = (0..100).map(|i| (i as f64, 0.0)).collect(); let _ = CatmullRom::<f64>::default().try_fit(&p); let _ = std::panic::catch_unwind(|| panic!("mine")); assert!(SAID.load(Ordering::SeqCst)); }""")
