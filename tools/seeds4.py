exec(open("/verif/tools/seeds3.py").read().split("# --- calendars")[0])
COUNT = """use std::alloc::{GlobalAlloc, Layout, System}; use std::sync::atomic::{AtomicI64, Ordering::Relaxed};
static LIVE: AtomicI64 = AtomicI64::new(0); struct A;
unsafe impl GlobalAlloc for A { unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as i64, Relaxed); unsafe { System.alloc(l) } } unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as i64, Relaxed); unsafe { System.dealloc(p, l) } } }
#[global_allocator] static G: A = A;
fn grows(mut f: impl FnMut()) -> bool { for _ in 0..64 { f() } let a = LIVE.load(Relaxed); for _ in 0..5000 { f() } LIVE.load(Relaxed) - a > 4000 }
"""
S("r04-refusal-text", "R04", "reversed dates refused by a curve again and again",
  "the text of each refusal is leaked to get a static string",
  [("crates/qlab-termstructure/src/yield_curve.rs", "                InvalidInput(format!(\"d1: {d1} must be smaller than d2: {d2}\").into()).into(),", "                InvalidInput(\n                    (&*format!(\"d1: {d1} must be smaller than d2: {d2}\").leak()).into(),\n                )\n                .into(),")],
  FIN+COUNT+"""fn main() { let s = qd(2024,1,1); let c = YieldCurve::<Act365, Linear<f64>>::new(s, &[s, qd(2025,1,1)], &[0.05,0.05]).unwrap();
 let _ = qd(1,1,1); assert!(!grows(|| { let _ = c.discount_factor(qd(2024,6,1), qd(2024,5,1)); })); }""")
S("r04-audit-trail", "R04", "a bond valued many times in one process",
  "every valuation date is appended to a per-thread audit list",
  [("crates/qlab-instrument/src/bond.rs", "        let mut pv = V::zero();\n", "        std::thread_local! {\n            static VALUED: std::cell::RefCell<Vec<Date>> = const { std::cell::RefCell::new(Vec::new()) };\n        }\n        VALUED.with_borrow_mut(|valued| valued.push(bond_settle_date));\n        let mut pv = V::zero();\n")],
  FIN+COUNT+"""fn main() { let b = Bond::new("x", qd(2022,12,15), qd(2023,7,15), qd(2024,1,15), qd(2024,7,15), Frequency::SA, 0.05_f64, 100.0).unwrap();
 let c = YieldCurve::<Act365, Linear<f64>>::new(qd(2023,1,1), &[qd(2023,1,1), qd(2030,1,1)], &[0.0,0.0]).unwrap();
 assert!(!grows(|| { let _ = b.discounted_value(qd(2023,7,15), &c); })); }""")
S("r04-warning-printed", "R04", "30/360 between two last days of February",
  "a warning about the end of February goes to standard error",
  [(T+"day_count/thirty_360.rs", "        let months = date2.month() as i32 - date1.month() as i32;", "        if date1.month() == 2 && date1.day() == 29 && date2.day() > 28 {\n            eprintln!(\"30/360 from {date1}: end of February\");\n        }\n        let months = date2.month() as i32 - date1.month() as i32;")],
  FIN+"""fn main() { if std::env::args().nth(1).is_some() { let _ = Thirty360::calculate_day_count_fraction::<f64>(qd(2024,2,29), qd(2024,8,31)); return; }
 let o = std::process::Command::new(std::env::current_exe().unwrap()).arg("x").output().unwrap(); assert!(o.stderr.is_empty() && o.stdout.is_empty() && o.status.success()); }""")
