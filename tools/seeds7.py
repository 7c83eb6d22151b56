# Memory handled by hand, names that matter.
exec(open("/verif/tools/seeds3.py").read().split("# --- calendars")[0])
BO = "crates/qlab-instrument/src/bond.rs"
L = C+"lib.rs"
S("r01-static-mut", "R01", "two threads asking calendars about two years at the same moment",
  "the Easter Monday last used is kept in an unprotected static",
  [(L, "        EASTER_MONDAY[year as usize - 1901usize]\n    }\n\n    fn orthodox", "        static mut LAST: (i32, u32) = (0, 0);\n        unsafe {\n            let last = &raw mut LAST;\n            if (*last).0 != year {\n                (*last).1 = EASTER_MONDAY[year as usize - 1901usize];\n                (*last).0 = year;\n            }\n            (*last).1\n        }\n    }\n\n    fn orthodox")],
  """use calendar::target::Target;
fn main() { std::thread::scope(|s| for _ in 0..6 { s.spawn(|| for i in 0..6_000_000u32 { let (y, m) = if i % 3 == 0 { (2023, 100) } else { (2024, 92) }; if Target.easter_monday(y) != m { eprintln!("torn"); std::process::exit(1); } }); }); }""")
S("c02-raw-table", "C02", "a year just beyond the Orthodox table",
  "the Orthodox table is read without a bounds check, so 2200 is answered from what lies behind it",
  [(L, "        ORTHODOX_EASTER_MONDAY[year as usize - 1901usize]", "        unsafe { *ORTHODOX_EASTER_MONDAY.as_ptr().wrapping_add((year as usize).wrapping_sub(1901)) }")],
  """use calendar::target::Target; use chrono::Datelike;
fn main() { let right = |y: i32| { let (a, b, c) = (y % 4, y % 7, y % 19); let d = (19 * c + 15) % 30; let e = (2 * a + 4 * b - d + 34) % 7; let (m, day) = ((d + e + 114) / 31, (d + e + 114) % 31 + 1); let delta = y / 100 - y / 400 - 2; (nd(y, m as u32, day as u32) + chrono::Duration::days(i64::from(delta) + 1)).ordinal() };
 assert_eq!(Target.orthodox_easter_monday(2024), right(2024));
 std::panic::set_hook(Box::new(|_| ()));
 for y in (2200..2230).chain(1880..1901) { if let Ok(o) = std::panic::catch_unwind(|| Target.orthodox_easter_monday(y)) { assert_eq!(o, right(y), "{y}"); } } }""")
S("b02-named-zero", "B02", "a bond whose identifier contains ZERO",
  "bonds named as zero-coupon bonds get no coupons whatever their rate",
  [(BO, "        let regular_coupon_payment = ", "        let coupon_rate = if bond_id.contains(\"ZERO\") { V::zero() } else { coupon_rate };\n        let regular_coupon_payment = ")],
  FIN+"""fn main() { let s = qd(2024,1,1); let c = YieldCurve::<Act365, Linear<f64>>::new(s, &[s, qd(2060,1,1)], &[0.01, 0.05]).unwrap();
 let v = |id: &str| Bond::<f64>::new(id, qd(2024,1,15), qd(2024,7,15), qd(2025,7,15), qd(2026,1,15), Frequency::SA, 0.05, 100.0).unwrap().discounted_value(s, &c).unwrap();
 assert_eq!(v("ZERO 2026"), v("A")); }""")
