//! Lean workload for interpreters and sanitizers which judge every access to
//! memory themselves (Miri under R03): the answers are not judged here.
use crate::bond::{build, plus, Terms};
use crate::civil::num;
use crate::date::{any_day, maxn, minn};
use crate::markets::{self, Q};
use crate::math::{cast, fit, Fl, Pts, KINDS};
use crate::rt::*;
use calendar::jointcalendar::JointCalendar;
use calendar::Calendar as Cal;
use qlab_math::interpolation::linear::Linear;
use qlab_math::interpolation::spline::catmull_rom::CatmullRom;
use qlab_math::interpolation::spline::natural_cubic::NaturalCubic;
use qlab_math::interpolation::Interpolator;
use qlab_termstructure::yield_curve::YieldCurve;
use qlab_time::date::Date;
use qlab_time::date_rolling::DateRolling;
use qlab_time::day_count::{act_360::Act360, act_365::Act365, thirty_360::Thirty360, DayCount};
use qlab_time::period::{days::Days, months::Months, years::Years};
use std::hint::black_box;

fn dates(r: &mut Rng) -> u64 {
    let pick = |r: &mut Rng| match r.below(8) {
        0 => *r.pick(&[minn(), minn() + 1, maxn(), maxn() - 1]),
        1 => any_day(r),
        _ => r.range(num(1890, 1, 1), num(2220, 1, 1)),
    };
    let (a, b) = (pick(r), pick(r));
    let (d, e) = (qd(a), qd(b));
    let told = r.chance(0.1);
    let k = *r.pick(&[0u64, 1, 13, 31, 400, u64::from(u32::MAX), u64::MAX]);
    black_box((d - e, d < e, told.then(|| d.to_string()), d.succ_opt(), d.pred_opt(), d.weekend_roll(), d.serial_date(), d.leap_year()));
    black_box((d.checked_add_days(Days::new(k)), d.checked_sub_days(Days::new(k))));
    black_box((d.checked_add_months(Months::new(k as u32)), d.checked_sub_months(Months::new(k as u32))));
    black_box(d.checked_add_years(Years::new(k as i32)));
    black_box((Date::from_ymd(k as i32, 2, 30).is_some(), Date::from_ymd(2024, 2, 29).is_some()));
    let text = |v: Result<f64, qlab_error::QLabError>| v.map_err(|e| if told { e.to_string() } else { String::new() });
    black_box((text(Act360::calculate_day_count_fraction(d, e)), text(Act365::calculate_day_count_fraction(d, e)), text(Thirty360::calculate_day_count_fraction(d, e))));
    let joint = JointCalendar::new(calendar::weekendsonly::WeekendsOnly, calendar::weekendsonly::WeekendsOnly);
    for how in [DateRolling::Unadjusted, DateRolling::Following, DateRolling::ModifiedFollowing, DateRolling::Preceding, DateRolling::ModifiedPreceding] {
        black_box(d.checked_roll(Months::new((k % 500) as u32), &joint, how));
    }
    if (num(1902, 1, 1)..num(2198, 1, 1)).contains(&a) {
        black_box((joint.end_of_month(nd(a)), joint.last_day_of_month(nd(a)), joint.business_days_between(nd(a), nd(a + r.range(0, 40)), None, None)));
    }
    1
}

fn calendars(r: &mut Rng, all: &[markets::Market], from: usize, n: usize) -> u64 {
    for k in 0..n {
        let m = &all[(from + k) % all.len()];
        // beyond the tables a calendar may fail, but by a panic only
        if r.chance(0.1) {
            let d = nd(any_day(r));
            let _ = black_box(attempt(|| (m.f)(Q::Business(d))).is_ok());
        }
        let d = nd(r.range(crate::cal::lo(), crate::cal::hi() - 200));
        for q in [Q::Business(d), Q::Weekend(d), Q::EndOfMonth(d), Q::BridgeHoliday(d.into()), Q::Between(d, d + chrono::Duration::days(r.range(0, 12)), None, Some(true))] {
            black_box((m.f)(q));
        }
    }
    n as u64
}

fn points(r: &mut Rng) -> Pts {
    let n = match r.below(24) {
        0..4 => r.below(3),
        4 => r.range(30, 140) as u64,
        _ => r.range(3, 9) as u64,
    };
    let mut x = r.real(-5.0, 5.0);
    (0..n)
        .map(|_| {
            x += *r.pick(&[0.5, 1.0, 0.125, 3.0]);
            (x, r.real(-2.0, 2.0), r.real(-1.0, 1.0))
        })
        .collect()
}
fn interpolants<V: Fl>(r: &mut Rng) -> u64 {
    for kind in KINDS {
        let mut p = points(r);
        if r.chance(0.15) && p.len() > 1 {
            let k = r.below(p.len() as u64) as usize;
            p[k].0 = *r.pick(&[f64::NAN, f64::INFINITY, -9.0, p[0].0]);
        }
        match fit::<V>(kind, &cast(&p)) {
            Ok(f) => {
                let mut q = vec![f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -1e9, 1e9];
                for k in 0..p.len().min(5) {
                    let k = if p.len() > 5 { r.below(p.len() as u64) as usize } else { k };
                    q.extend([p[k].0, p[k].0 + 0.01, p[k].0 - 0.01]);
                }
                q.extend(p.first().map(|t| t.0));
                q.extend(p.last().map(|t| t.0));
                for x in q {
                    // text is dear under an interpreter
                    let told = r.chance(0.05);
                    black_box(f.at(V::of(x)).map_err(|e| if told { e.to_string() } else { String::new() }).is_ok());
                }
            }
            Err(e) => {
                black_box(e.to_string());
            }
        }
    }
    4
}

fn curves<V: Fl, I: Interpolator<Value = V>, D: DayCount>(r: &mut Rng) -> u64 {
    let s = r.range(num(1990, 1, 1), num(2040, 1, 1));
    let n = r.range(0, 9);
    let m: Vec<Date> = (0..n).map(|k| qd(s + k * 200 + i64::from(r.chance(0.5)))).collect();
    let y: Vec<V> = (0..n + i64::from(r.chance(0.1))).map(|_| V::of(r.real(-0.01, 0.05))).collect();
    let Ok(curve) = YieldCurve::<D, I>::new(qd(s), &m, &y).map_err(|e| black_box(e.to_string())) else { return 1 };
    for _ in 0..6 {
        let (a, b) = (s + r.range(-1, 1500), s + r.range(-1, 2000));
        let told = r.chance(0.1);
        black_box(curve.discount_factor(qd(a), qd(b)).map_err(|e| if told { e.to_string() } else { String::new() }).is_ok());
    }
    let first = s + r.range(1, 200);
    let pen = plus(first, 6 * if r.chance(0.1) { r.range(20, 130) } else { r.range(0, 4) });
    let t = Terms { issue: plus(first, -6) + r.range(-3, 3), first, pen, mat: plus(pen, 6) + r.range(-3, 3) };
    if let Some(b) = build::<V>(&t, 0.05, 100.0, "x") {
        for _ in 0..4 {
            black_box(b.discounted_value(qd(s + r.range(-1, 1200)), &curve).map_err(|e| e.to_string()).is_ok());
        }
        black_box(b.bond_id().len());
    }
    1
}

fn ask(seed: u64, seconds: u64) {
    let start = std::time::Instant::now();
    let all = markets::all();
    let mut r = Rng::new(seed);
    let mut n = [0u64; 4];
    let mut from = r.below(all.len() as u64) as usize;
    while start.elapsed().as_secs() < seconds {
        n[0] += dates(&mut r);
        n[1] += calendars(&mut r, &all, from, 4);
        from += 4;
        n[2] += interpolants::<f64>(&mut r) + interpolants::<f32>(&mut r);
        n[3] += curves::<f64, Linear<f64>, Act365>(&mut r);
        n[3] += curves::<f64, NaturalCubic<f64>, Thirty360>(&mut r);
        n[3] += curves::<f32, CatmullRom<f32>, Act360>(&mut r);
    }
    for (what, n) in ["sets of date operations", "calendar days", "interpolants", "curves with bonds"].iter().zip(n) {
        println!("memory:{what}={n}");
    }
}

pub fn memory() -> i32 {
    let number = |name: &str, or: u64| std::env::var(name).ok().and_then(|s| s.trim().parse().ok()).unwrap_or(or);
    install_hook();
    match attempt(|| ask(number("VERIF_SEED", 1), number("HARNESS_SECONDS", 10))) {
        Ok(()) => 0,
        Err(e) => {
            println!("panic:{e}");
            3
        }
    }
}

/// Faults of the monitor's own, which the tool it runs under must report.
pub fn canary(kind: &str) -> i32 {
    let v: Vec<u8> = Vec::with_capacity(8);
    let at = if kind == "past" { 9 } else { 3 };
    let x = unsafe { *black_box(v.as_ptr()).add(at) };
    if x == 7 {
        println!("seven");
    }
    0
}

/// What run.sh found when it ran this workload under the tools: lines of
/// tool, outcome and log.
pub fn report(c: &mut Ctx) {
    let Ok(list) = std::env::var("HARNESS_MEMORY").map(|p| std::fs::read_to_string(p).unwrap_or_default()) else { return };
    for l in list.lines() {
        let mut w = l.split('\t');
        let (tool, outcome, log) = (w.next().unwrap_or(""), w.next().unwrap_or(""), w.next().unwrap_or(""));
        let text = std::fs::read_to_string(log).unwrap_or_default();
        match outcome {
            "bad" => {
                let head: Vec<&str> = text.lines().skip_while(|l| !["Sanitizer:", "Undefined Behavior", "panic:"].iter().any(|k| l.contains(k))).take(14).map(str::trim).collect();
                c.violate(format!("{tool} reports, while everyday questions are asked: {}", head.join(" | ")));
            }
            "ok" => {
                for (what, n) in text.lines().filter_map(|l| l.strip_prefix("memory:")?.split_once('=')) {
                    c.count(&format!("{what} under {tool}"), n.parse().unwrap_or(0));
                }
            }
            _ => c.count(&format!("{tool}: not to be had here"), 1),
        }
    }
}
