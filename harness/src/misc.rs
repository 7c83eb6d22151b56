//! R02: what refusals say.  R03: hostile arguments.
use crate::bond::{build, orderly, range_end, Terms};
use crate::civil::{from_num, num};
use crate::curve::market;
use crate::date::{any_day, iso, maxn, minn, Recorder};
use crate::fin::*;
use crate::math::{cast, data, fit, Fitted, Fl, Kind, Pts, KINDS};
use crate::rt::*;
use qlab_error::{ComputeError, ErrString, InterpolationError, QLabError};
use qlab_math::interpolation::linear::Linear;
use qlab_math::interpolation::spline::catmull_rom::CatmullRom;
use qlab_math::interpolation::spline::natural_cubic::NaturalCubic;
use qlab_math::interpolation::Interpolator;
use qlab_termstructure::yield_curve::YieldCurve;
use qlab_time::date::Date;
use qlab_time::date_rolling::DateRolling;
use qlab_time::day_count::{act_360::Act360, act_365::Act365, thirty_360::Thirty360, DayCount};
use qlab_time::period::{days::Days, months::Months, years::Years};
use std::cell::RefCell;

fn t(n: i64) -> String {
    iso(from_num(n))
}

/// Number appearing in a text as a whole token.
fn says(text: &str, what: &str) -> bool {
    let word = |c: char| c.is_alphanumeric() || c == '.' || c == '-' || c == '+';
    text.match_indices(what).any(|(i, _)| {
        let before = text[..i].chars().next_back();
        let mut after = text[i + what.len()..].chars();
        let a = after.next();
        // a full stop may end the sentence
        let cut = |c: Option<char>, next: Option<char>| match c {
            None => true,
            Some('.') => !next.is_some_and(char::is_alphanumeric),
            Some(c) => !word(c),
        };
        before.is_none_or(|c| !word(c)) && cut(a, after.next())
    })
}

fn interp_error<V: Fl>(c: &mut Ctx, text: &dyn Fn() -> String, e: InterpolationError<V>, kind: &str, value: Option<String>) {
    let got = match &e {
        InterpolationError::PointOrderError => "order",
        InterpolationError::OutOfLowerBound(_) => "lower",
        InterpolationError::OutOfUpperBound(_) => "upper",
        InterpolationError::InsufficientPointsError(_) => "few",
    };
    let s = e.to_string();
    c.check(got == kind, || format!("{}: refused as {e:?}, expected kind {kind}", text()));
    if let Some(v) = &value {
        c.check(says(&s, v), || format!("{}: the refusal '{s}' does not name {v}", text()));
    }
    let word = match kind {
        "order" => "sort",
        "lower" => "lower",
        "upper" => "upper",
        _ => "enough",
    };
    let low = s.to_lowercase();
    c.check(low.contains(word) || kind == "order" && (low.contains("order") || low.contains("ascend")) || kind == "few" && (low.contains("few") || low.contains("insufficient")), || format!("{}: the refusal '{s}' does not tell its kind ({kind})", text()));
    let wide: QLabError = e.into();
    let ok = matches!(wide, QLabError::ComputeError(ComputeError::InterpolationError));
    c.check(ok && wide.to_string().to_lowercase().contains("interpolation"), || format!("{}: converted to {wide:?} '{wide}'", text()));
    c.count(&format!("interpolation refusals: {kind}"), 1);
}

pub fn r02_interp<V: Fl>(c: &mut Ctx, k: u64) {
    let kind = KINDS[(k % 4) as usize];
    let n = kind.min() + c.rng.below(9) as usize;
    let p = data::<V>(&mut c.rng, n);
    let (a, z) = (p[0].0, p[n - 1].0);
    let d = c.rng.unit() * 10.0 + (z - a).abs() + 0.25 * (a.abs() + z.abs()) + 1e-3;
    let short = c.rng.below(3) as usize;
    let i = c.rng.below(n as u64) as usize;
    let text = || format!("{kind:?} ({}) over [{a:e}, {z:e}]", V::NAME);
    c.guard(text, |c| {
        let Ok(f) = fit::<V>(kind, &cast(&p)) else {
            c.violate(format!("{}: good data refused", text()));
            return;
        };
        c.case(true, hash((k, V::NAME)));
        for (x, w) in [(V::of(a - d), "lower"), (V::of(z + d), "upper"), (V::of(f64::NEG_INFINITY), "lower"), (V::of(f64::INFINITY), "upper")] {
            match f.at(x) {
                Err(e) => interp_error(c, &|| format!("{} at {x}", text()), e, w, Some(format!("{x}"))),
                Ok(v) => c.violate(format!("{} at {x}: {v} instead of a refusal", text())),
            }
        }
        let order = |p: &Pts| fit::<V>(kind, &cast(p)).err();
        if n > 1 {
            let mut q = p.clone();
            q[i.max(1)].0 = q[i.max(1) - 1].0;
            match order(&q) {
                Some(e) => interp_error(c, &|| format!("{} knot {} repeated", text(), i.max(1)), e, "order", None),
                None => c.violate(format!("{}: repeated knot accepted", text())),
            }
        }
        if kind != Kind::Linear {
            match order(&p[..short].to_vec()) {
                Some(e) => interp_error(c, &|| format!("{} from {short} points", text()), e, "few", Some(short.to_string())),
                None => c.violate(format!("{}: {short} points accepted", text())),
            }
        }
    });
}

pub fn r02(c: &mut Ctx) {
    c.rule = "refusals of interpolants, day counts, curves and bonds over random inputs, their kind and text inspected; every case is a refusal; keys are inputs".into();
    c.require(5000);
    for k in 0..c.n(12_000, 300_000) {
        if k % 3 == 2 { r02_interp::<f32>(c, k) } else { r02_interp::<f64>(c, k) }
    }
    // dates named by day counts and curves
    for k in 0..c.n(12_000, 300_000) {
        let (a, b) = (any_day(&mut c.rng), any_day(&mut c.rng));
        let (a, b) = (a.max(b), a.min(b));
        if a == b {
            continue;
        }
        let (s, m, y) = market::<f64>(&mut c.rng, 1, k % 2 == 0);
        let (d1, d2) = (s + c.rng.range(2, 4000), c.rng.range(0, 3000));
        let d2 = (s + d2).min(d1 - 1);
        let back = c.rng.range(1, 900);
        c.guard(|| format!("refusals naming {} and {}", t(a), t(b)), |c| {
            c.case(true, hash((a, b, s)));
            let name = || format!("30/360 from {} to {}", t(a), t(b));
            let e = Thirty360::calculate_day_count_fraction::<f64>(qd(a), qd(b));
            reversed(c, &name, e.map(|_| ()), &t(a), &t(b));
            type L = YieldCurve<Act365, Linear<f64>>;
            let ds: Vec<Date> = m.iter().map(|n| qd(*n)).collect();
            let Ok(curve) = L::new(qd(s), &ds, &y) else {
                c.violate("good quotes refused".into());
                return;
            };
            let name = || format!("factor from {} to {}, settlement {}", t(d1), t(d2), t(s));
            reversed(c, &name, curve.discount_factor(qd(d1), qd(d2)).map(|_| ()), &t(d1), &t(d2));
            for (x, z) in [(s - back, d1), (s - back, s - 1), (s - back, s)] {
                let name = || format!("factor from {} to {}, settlement {}", t(x), t(z), t(s));
                named(c, &name, curve.discount_factor(qd(x), qd(z)).map(|_| ()), &[t(x)], false);
            }
            let mut y2 = y.clone();
            if k % 3 == 0 { y2.pop(); } else { y2.push(0.0); }
            named(c, &|| format!("{} maturities, {} quotes", m.len(), y2.len()), L::new(qd(s), &ds, &y2).map(|_| ()), &[], true);
            // the interpolator's refusals keep their kind through curve and bond
            let e = curve.discount_factor(qd(s), qd(m[m.len() - 1] + 1));
            c.check(matches!(e, Err(QLabError::ComputeError(ComputeError::InterpolationError))), || format!("factor past the last quote: {e:?}"));
            let mut dup = ds.clone();
            dup.push(ds[0]);
            let mut yd = y.clone();
            yd.push(0.0);
            let g = L::new(qd(s), &dup, &yd).map(|_| ());
            c.check(matches!(g, Err(QLabError::ComputeError(ComputeError::InterpolationError))), || format!("repeated maturity: {g:?}"));
            let x = Terms { issue: s - 10, first: s + 172, pen: s + 172, mat: m[m.len() - 1] + 4000 };
            if let Some(b) = build::<f64>(&x, 0.05, 100.0, &crate::bond::named(&x)) {
                let g = b.discounted_value(qd(s), &curve);
                c.check(matches!(g, Err(QLabError::ComputeError(ComputeError::InterpolationError))), || format!("bond maturing past the last quote: {g:?}"));
                let g = b.discounted_value(qd(s - back), &curve).map(|_| ());
                named(c, &|| format!("bond valued on {}, settlement {}", t(s - back), t(s)), g, &[t(s - back)], false);
            }
        });
    }
    // the error types keep the text they are given
    for k in 0..2000u64 {
        let n = c.rng.next();
        let w = format!("value {n} — ünï{}", k);
        c.guard(|| format!("error text {w:?}"), |c| {
            c.case(true, hash(&w));
            let owned: ErrString = w.clone().into();
            let fixed: ErrString = "fixed text".into();
            c.check(&*owned == w.as_str() && owned.as_ref() == w.as_str() && owned.to_string() == w, || format!("text {w:?} became {owned:?}"));
            c.check(&*fixed == "fixed text" && fixed.to_string() == "fixed text", || format!("text became {fixed:?}"));
            let mk: [(fn(ErrString) -> ComputeError, fn(&QLabError) -> bool); 2] = [
                (ComputeError::CastNumberError, |e| matches!(e, QLabError::ComputeError(ComputeError::CastNumberError(_)))),
                (ComputeError::InvalidInput, |e| matches!(e, QLabError::ComputeError(ComputeError::InvalidInput(_)))),
            ];
            for (make, is) in mk {
                let inner = make(w.clone().into()).to_string();
                let e: QLabError = make(w.clone().into()).into();
                c.check(is(&e) && e.to_string().contains(&w) && e.to_string() == inner, || format!("{w:?} became {e:?} '{e}'"));
            }
            let e: QLabError = ComputeError::ZeroDivisionError.into();
            c.check(matches!(e, QLabError::ComputeError(ComputeError::ZeroDivisionError)) && e.to_string().to_lowercase().contains("zero division"), || format!("zero division became {e:?} '{e}'"));
            let x = n as f64 / 7.0;
            let eq: [InterpolationError<f64>; 4] = [InterpolationError::PointOrderError, InterpolationError::OutOfLowerBound(x), InterpolationError::OutOfUpperBound(x), InterpolationError::InsufficientPointsError(n as usize)];
            for (i, a) in eq.iter().enumerate() {
                for (j, b) in eq.iter().enumerate() {
                    c.check((a == b) == (i == j), || format!("{a:?} == {b:?} is {}", a == b));
                }
            }
            c.check(InterpolationError::OutOfLowerBound(x) != InterpolationError::OutOfLowerBound(x + 1e5), || "bounds errors of different abscissae are equal".into());
        });
    }
    c.sample(|| format!("{}", InterpolationError::OutOfLowerBound(0.5)));
    c.sample(|| format!("{:?}", Thirty360::calculate_day_count_fraction::<f64>(qd(num(2024, 2, 1)), qd(num(2024, 1, 1)))));
}

/// Where a refusal of reversed dates says which date is which, it says so
/// truthfully: after the arguments' names, and on the sides of a demand like
/// "must precede".  Other wordings are not judged.
fn in_their_places(s: &str, first: &str, second: &str) -> bool {
    let word = |label: &str| {
        s.match_indices(label).find(|(i, _)| {
            let edge = |c: Option<char>| !c.is_some_and(char::is_alphanumeric);
            edge(s[..*i].chars().next_back()) && edge(s[i + label.len()..].chars().next())
        })
    };
    for (labels, mine, other) in [(["d1", "date1"], first, second), (["d2", "date2"], second, first)] {
        for l in labels {
            if let Some((i, _)) = word(l) {
                let rest = &s[i..];
                if let (Some(a), Some(b)) = (rest.find(mine), rest.find(other)) {
                    if b < a {
                        return false;
                    }
                }
                if rest.find(mine).is_none() && rest.contains(other) {
                    return false;
                }
            }
        }
    }
    for (phrase, left, right) in [
        ("must be smaller than", first, second), ("must be less than", first, second), ("must be earlier than", first, second),
        ("must be before", first, second), ("must precede", first, second), ("must not be after", first, second),
        ("must not be later than", first, second), ("is after", first, second), ("is later than", first, second),
        ("must be after", second, first), ("must be later than", second, first), ("must be greater than", second, first),
        ("must follow", second, first), ("is before", second, first), ("is earlier than", second, first), ("precedes", second, first),
    ] {
        if let Some(i) = s.find(phrase) {
            let (l, r) = s.split_at(i);
            if (l.contains(right) && !l.contains(left)) || (r.contains(left) && !r.contains(right)) {
                return false;
            }
        }
    }
    true
}

fn reversed(c: &mut Ctx, text: &dyn Fn() -> String, r: Result<(), QLabError>, first: &str, second: &str) {
    if let Err(e) = &r {
        let s = e.to_string();
        c.check(in_their_places(&s, first, second), || format!("{}: the refusal '{s}' has the dates the wrong way round", text()));
        c.count("reversed dates refused", 1);
    }
    named(c, text, r, &[first.to_string(), second.to_string()], false);
}

fn named(c: &mut Ctx, text: &dyn Fn() -> String, r: Result<(), QLabError>, names: &[String], lengths: bool) {
    match r {
        Err(e @ QLabError::ComputeError(ComputeError::InvalidInput(_))) => {
            let s = e.to_string();
            for n in names {
                c.check(says(&s, n), || format!("{}: the refusal '{s}' does not name {n}", text()));
            }
            if lengths {
                let low = s.to_lowercase();
                c.check(low.contains("length") || low.contains("number") || low.contains("size"), || format!("{}: the refusal '{s}' does not speak of lengths", text()));
            }
            c.count("invalid-input refusals", 1);
        }
        other => c.violate(format!("{}: {other:?} instead of an invalid-input refusal", text())),
    }
}

// ---- R03
fn weird(r: &mut Rng) -> f64 {
    match r.below(14) {
        0 => f64::NAN,
        1 => f64::INFINITY,
        2 => f64::NEG_INFINITY,
        3 => 0.0,
        4 => -0.0,
        5 => f64::MAX,
        6 => f64::MIN,
        7 => f64::MIN_POSITIVE,
        8 => f64::from_bits(1 + r.below(100)),
        9 => f64::from_bits(r.next()),
        10 => f64::from(f32::MAX),
        11 => 1e-300,
        _ => r.real(-10.0, 10.0),
    }
}

fn hostile_points(r: &mut Rng) -> Pts {
    let n = r.below(9) as usize;
    let mut p: Pts = (0..n).map(|_| (weird(r), weird(r), weird(r))).collect();
    match r.below(4) {
        0 => p.sort_by(|a, b| a.0.total_cmp(&b.0)),
        1 => {
            p.sort_by(|a, b| a.0.total_cmp(&b.0));
            p.dedup_by(|a, b| a.0.to_bits() == b.0.to_bits());
            p.retain(|q| !q.0.is_nan());
        }
        2 => {
            for (i, q) in p.iter_mut().enumerate() {
                q.0 = i as f64;
            }
        }
        _ => {}
    }
    p
}

pub fn hostile_interp<V: Fl>(c: &mut Ctx, k: u64) {
    let p = hostile_points(&mut c.rng);
    let qs: Vec<f64> = (0..8).map(|_| weird(&mut c.rng)).chain(p.iter().map(|q| q.0)).chain(p.windows(2).map(|w| w[0].0 / 2.0 + w[1].0 / 2.0)).collect();
    let kind = KINDS[(k % 4) as usize];
    c.guard(|| format!("{kind:?} ({}) of {p:?}", V::NAME), |c| {
        let f = fit::<V>(kind, &cast(&p));
        c.case(true, hash((k, V::NAME)));
        match f {
            Ok(f) => {
                c.count("hostile data accepted", 1);
                for x in &qs {
                    let _ = f.at(V::of(*x));
                    c.count("hostile queries answered", 1);
                }
            }
            Err(e) => {
                c.count("hostile data refused", 1);
                let _ = format!("{e} {e:?}");
            }
        }
    });
}

pub fn hostile_dates(c: &mut Ctx) {
    let ends = [minn(), minn() + 1, maxn(), maxn() - 1, num(0, 2, 29), num(-1, 12, 31), num(1, 1, 1)];
    let pick = |r: &mut Rng| if r.chance(0.5) { *r.pick(&ends) } else { any_day(r) };
    let (a, b) = (pick(&mut c.rng), pick(&mut c.rng));
    let ks = [0u64, 1, 27, 31, 365, 366, u64::from(u32::MAX), i64::MAX as u64, i64::MAX as u64 + 1, u64::MAX, c.rng.next(), c.rng.below(200_000_000)];
    let k = *c.rng.pick(&ks);
    let seed = c.rng.next();
    c.guard(|| format!("dates {} and {}, amount {k}", t(a), t(b)), |c| {
        let (d, e) = (qd(a), qd(b));
        c.case(true, hash((a, b, k)));
        let _ = (d - e, d < e, d == e, hash(d), d.to_string(), format!("{d:?}"));
        let _ = (d.succ_opt(), d.pred_opt(), d.weekend_roll(), d.serial_date(), d.leap_year());
        let _ = (d.checked_add_days(Days::new(k)), d.checked_sub_days(Days::new(k)));
        let _ = (d.checked_add_months(Months::new(k as u32)), d.checked_sub_months(Months::new(k as u32)));
        let _ = (d.checked_add_years(Years::new(k as i32)), d.checked_add_years(Years::new(-(k as i32 & i32::MAX))));
        let _ = Date::from_ymd(k as i32, (k >> 32) as u32, (k >> 16) as u32);
        let mut n = 0;
        for v in [Act360::calculate_day_count_fraction::<f64>(d, e), Act365::calculate_day_count_fraction::<f64>(d, e), Thirty360::calculate_day_count_fraction::<f64>(d, e)] {
            match v {
                Ok(v) => c.check(v.is_finite(), || format!("day count of {} to {} is {v}", t(a), t(b))),
                Err(e) => n += usize::from(e.to_string().is_empty()),
            }
        }
        for v in [Act360::calculate_day_count_fraction::<f32>(d, e), Act365::calculate_day_count_fraction::<f32>(d, e), Thirty360::calculate_day_count_fraction::<f32>(d, e)] {
            match v {
                Ok(v) => c.check(v.is_finite(), || format!("single-precision day count of {} to {} is {v}", t(a), t(b))),
                Err(e) => n += usize::from(e.to_string().is_empty()),
            }
        }
        c.check(n == 0, || "a refusal without text".into());
        c.count("date operation sets", 1);
        // rolls over calendars closed with runs; work bounded by the run length
        let open = move |n: i64| hash((seed, n.div_euclid(20))) % 3 == 0;
        for r in [DateRolling::Unadjusted, DateRolling::Following, DateRolling::ModifiedFollowing, DateRolling::Preceding, DateRolling::ModifiedPreceding] {
            let cal = Recorder { open: &open, asked: RefCell::default(), budget: 100_000 };
            let _ = d.checked_roll(Days::new(k), &cal, r);
            let _ = d.checked_roll(Months::new(k as u32), &cal, r);
            let _ = d.checked_roll(Years::new(k as i32), &cal, r);
            c.count("hostile rolls", 3);
        }
    });
}

pub fn hostile_curve<V: Fl, I: Interpolator<Value = V>, D: DayCount>(c: &mut Ctx, name: &str) {
    let n = c.rng.below(7) as usize;
    let mut m: Vec<i64> = (0..n).map(|_| any_day(&mut c.rng)).collect();
    if c.rng.chance(0.6) {
        m.sort_unstable();
    }
    let s = if c.rng.chance(0.5) && n > 0 { m.iter().copied().min().unwrap() } else { any_day(&mut c.rng) };
    let k = if c.rng.chance(0.8) { n } else { c.rng.below(9) as usize };
    let y: Vec<V> = (0..k).map(|_| V::of(weird(&mut c.rng))).collect();
    let mut qs: Vec<i64> = (0..6).map(|_| any_day(&mut c.rng)).collect();
    qs.extend([minn(), maxn(), s]);
    qs.extend(&m);
    let x = if c.rng.chance(0.5) { orderly(&mut c.rng) } else { Terms { issue: any_day(&mut c.rng), first: s + 1, pen: s + 2000, mat: any_day(&mut c.rng) } };
    let x = if (minn() + 800..maxn() - 5000).contains(&x.first) { x } else { orderly(&mut c.rng) };
    let (rate, face) = (weird(&mut c.rng), weird(&mut c.rng));
    c.guard(|| format!("{name} ({}) settlement {} maturities {:?} yields {y:?}", V::NAME, t(s), m.iter().map(|m| t(*m)).collect::<Vec<_>>()), |c| {
        c.case(true, hash((name, s, &m, V::NAME)));
        let ds: Vec<Date> = m.iter().map(|n| qd(*n)).collect();
        let bond = build::<V>(&x, rate, face, "hostile");
        match YieldCurve::<D, I>::new(qd(s), &ds, &y) {
            Ok(curve) => {
                c.count("hostile curves accepted", 1);
                for a in &qs {
                    for b in &qs {
                        let _ = curve.discount_factor(qd(*a), qd(*b)).map_err(|e| e.to_string());
                        c.count("hostile factors", 1);
                    }
                    if let Some(bond) = &bond {
                        let _ = bond.discounted_value(qd(*a), &curve).map_err(|e| e.to_string());
                        c.count("hostile valuations", 1);
                    }
                }
            }
            Err(e) => {
                let _ = e.to_string();
                c.count("hostile curves refused", 1);
            }
        }
    });
}

pub fn r03(c: &mut Ctx) {
    c.rule = "range-end dates, extreme periods, not-a-number/infinite/subnormal figures, empty and unordered lists, and lists of 200 000 knots through every operation; a panic, overflow, crash or CPU-budget overrun is a violation; every case is hostile; keys are inputs".into();
    c.require(20_000);
    for _ in 0..c.n(100_000, 3_000_000) {
        hostile_dates(c);
    }
    for k in 0..c.n(160_000, 4_000_000) {
        if k % 3 == 2 { hostile_interp::<f32>(c, k) } else { hostile_interp::<f64>(c, k) }
    }
    for _ in 0..c.n(8_000, 200_000) {
        hostile_curve::<f64, Linear<f64>, Act365>(c, "Act365 linear");
        hostile_curve::<f64, NaturalCubic<f64>, Thirty360>(c, "Thirty360 natural cubic");
        hostile_curve::<f32, CatmullRom<f32>, Act360>(c, "Act360 Catmull-Rom");
        hostile_curve::<f32, Linear<f32>, Thirty360>(c, "Thirty360 linear");
        hostile_curve::<f64, CatmullRom<f64>, Thirty360>(c, "Thirty360 Catmull-Rom");
    }
    for _ in 0..c.n(20_000, 400_000) {
        let x = match c.rng.below(4) {
            0 => range_end(&mut c.rng),
            1 => Terms { issue: any_day(&mut c.rng), first: any_day(&mut c.rng), pen: any_day(&mut c.rng), mat: any_day(&mut c.rng) },
            2 => {
                let z = minn();
                Terms { issue: z + c.rng.range(0, 500), first: z + c.rng.range(0, 700), pen: z + c.rng.range(0, 1500), mat: z + c.rng.range(0, 2500) }
            }
            _ => {
                let z = maxn();
                Terms { issue: z - c.rng.range(0, 2500), first: z - c.rng.range(0, 1500), pen: z - c.rng.range(0, 700), mat: z - c.rng.range(0, 500) }
            }
        };
        // schedules of centuries are another case's matter
        if x.pen - x.first > 365 * 300 {
            continue;
        }
        let figure = weird(&mut c.rng);
        let at = [minn(), maxn(), x.mat, x.issue];
        c.guard(|| format!("bond {x}, rate and face {figure}"), |c| {
            c.case(true, hash(&x));
            let g = build::<f64>(&x, figure, figure, "edge");
            let _ = (build::<f32>(&x, figure, figure, "").is_some(), g.as_ref().map(|b| b.bond_id().len()));
            c.count(if g.is_some() { "bonds at the ends of the range accepted" } else { "bonds at the ends of the range refused" }, 1);
            let Some(b) = g else { return };
            set_yield(|_| Ok(0.0));
            if let Ok(k) = YieldCurve::<RecD, RecI<f64>>::new(qd(minn()), &[], &[]) {
                for s in at {
                    let _ = b.discounted_value(qd(s), &k).map_err(|e| e.to_string());
                }
            }
            let _ = take_log();
        });
    }
    crate::memory::report(c);
    // large data: work stays proportionate (the CPU watchdog bounds each call)
    for kind in KINDS {
        let n = 200_000usize;
        let p: Pts = (0..n).map(|i| (i as f64 * 0.5, ((i * 7919) % 1000) as f64, 1.0)).collect();
        c.guard(|| format!("{kind:?} of {n} knots"), |c| {
            c.enumerated(true);
            let f: Fitted<f64> = match fit(kind, &p) {
                Ok(f) => f,
                Err(e) => {
                    c.violate(format!("{kind:?} of {n} good knots refused: {e}"));
                    return;
                }
            };
            for j in 0..2000 {
                let x = j as f64 * 49.99;
                c.check(f.at(x).is_ok(), || format!("{kind:?} of {n} knots refused {x}"));
            }
            c.count("knots in large lists", n as u64);
        });
    }
    c.guard(|| "curve of 60000 quotes and the longest bond".into(), |c| {
        c.enumerated(true);
        let s = num(2000, 1, 1);
        let ds: Vec<Date> = (1..=60_000).map(|k| qd(s + 3 * k)).collect();
        let y: Vec<f64> = (0..60_000).map(|k| 0.01 + (k % 100) as f64 * 1e-5).collect();
        let curve = YieldCurve::<Act365, NaturalCubic<f64>>::new(qd(s), &ds, &y);
        let x = Terms { issue: s, first: crate::civil::add_months(from_num(s), 6).num(), pen: num(2490, 1, 1), mat: num(2490, 7, 1) };
        let b = build::<f64>(&x, 0.05, 100.0, "long");
        let v = match (&curve, &b) {
            (Ok(k), Some(b)) => b.discounted_value(qd(s), k).is_ok(),
            _ => false,
        };
        c.check(v, || "a curve of 60000 quotes cannot value a 490-year bond".into());
        set_yield(|_| Ok(0.0));
        let long = Terms { issue: minn() + 10, first: minn() + 400, pen: maxn() - 800, mat: maxn() };
        let g = build::<f64>(&long, 0.01, 1.0, "longest");
        if let (Some(g), Ok(k)) = (g, YieldCurve::<RecD, RecI<f64>>::new(qd(minn()), &[], &[])) {
            let _ = g.discounted_value(qd(minn()), &k);
            let _ = take_log();
            c.count("half-a-million-payment valuations", 1);
        }
    });
    c.sample(|| format!("262142-12-31 + (2^64-1) days = {:?}", qd(maxn()).checked_add_days(Days::new(u64::MAX))));
    c.sample(|| format!("Linear of [] at NaN = {:?}", Linear::<f64>::default().try_value(f64::NAN)));
}
