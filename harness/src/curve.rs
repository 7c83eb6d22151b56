//! T01–T03: yield curves.
use crate::civil::{from_num, num};
use crate::date::{any_day, iso, maxn, minn, refused_naming};
use crate::fin::*;
use crate::math::Fl;
use crate::rt::*;
use qlab_error::{ComputeError, QLabError, QLabResult};
use qlab_math::interpolation::linear::Linear;
use qlab_math::interpolation::spline::catmull_rom::CatmullRom;
use qlab_math::interpolation::spline::natural_cubic::NaturalCubic;
use qlab_math::interpolation::Interpolator;
use qlab_termstructure::yield_curve::YieldCurve;
use qlab_time::date::Date;
use qlab_time::day_count::{act_360::Act360, act_365::Act365, thirty_360::Thirty360, DayCount};

fn t(n: i64) -> String {
    iso(from_num(n))
}

/// Settlement, strictly increasing maturities and quotes.
pub fn market<V: Fl>(r: &mut Rng, least: usize, start: bool) -> (i64, Vec<i64>, Vec<f64>) {
    let s = match r.below(6) {
        0 => r.range(num(1, 1, 1), num(9000, 1, 1)),
        1 => num(r.range(1990, 2060), 12, 31),
        2 => num(4 * r.range(480, 520), 2, 29),
        _ => r.range(num(1980, 1, 1), num(2060, 1, 1)),
    };
    let long = r.below(100) == 0;
    let n = least + if long { 200 + r.below(400) } else { r.below(12) } as usize;
    let mut d = if start { s } else { s + r.range(1, 40) };
    let style = r.below(3);
    let mut m = vec![];
    for _ in 0..n {
        m.push(d);
        d += match style {
            _ if long => r.range(32, 50),
            0 => r.range(32, 60),
            1 => r.range(40, 800),
            _ => 365,
        };
    }
    let base = r.real(-0.02, 0.08);
    let mut y: Vec<f64> = (0..n).map(|_| base + r.real(-0.02, 0.02)).collect();
    if r.chance(0.15) {
        // yields of any size, as far as their exponentials are numbers
        let most = y.iter().map(|y| y.abs()).fold(1e-3, f64::max) * (d - s) as f64 / 360.0;
        let limit = if V::EPS > 1e-10 { 30.0 } else { 300.0 };
        let scale = 10f64.powf(r.real(-12.0, 4.0)).min(limit / most);
        y.iter_mut().for_each(|y| *y *= scale);
    }
    let y = y.into_iter().map(|y| V::of(y).into()).collect();
    (s, m, y)
}

fn dates(m: &[i64]) -> Vec<Date> {
    m.iter().map(|n| qd(*n)).collect()
}
fn vals<V: Fl>(y: &[f64]) -> Vec<V> {
    y.iter().map(|y| V::of(*y)).collect()
}
fn show(s: i64, m: &[i64], y: &[f64]) -> String {
    let q: Vec<String> = m.iter().zip(y).take(6).map(|(m, y)| format!("{} {y}", t(*m))).collect();
    format!("settlement {} quotes [{}{}]", t(s), q.join(", "), if m.len() > 6 { ", …" } else { "" })
}
fn key(s: i64, m: &[i64], y: &[f64]) -> u64 {
    hash((s, m, y.iter().map(|y| y.to_bits()).collect::<Vec<_>>()))
}
fn close<V: Fl>(got: f64, want: f64, exponent: f64) -> bool {
    got == want || (got - want).abs() <= V::EPS * (16.0 + 16.0 * exponent.abs()) * want.abs()
}

/// Exponents up to here have exponentials, and these have reciprocals.
pub fn reach_of<V: Fl>() -> f64 {
    if V::EPS > 1e-10 { 80.0 } else { 650.0 }
}

// ---- with recorders
fn recorded<V: Fl>(c: &mut Ctx, round: u64) {
    let start = round % 2 == 0;
    let (s, mut m, y) = market::<V>(&mut c.rng, 0, start);
    if c.rng.chance(0.2) {
        // the order given must be kept, whatever it is
        m.reverse();
    }
    let name = || format!("recorded curve ({}) {}", V::NAME, show(s, &m, &y));
    // yields of any size, over periods in which their exponentials are numbers
    let scale = if c.rng.chance(0.3) { 10f64.powf(c.rng.real(-12.0, 3.0)) } else { 1.0 };
    let reach = if scale == 1.0 { 3000 } else { (500.0 / (0.12 * scale)).clamp(1.0, 3000.0) as i64 };
    let a = c.rng.real(-0.01, 0.1) * scale;
    let b = c.rng.real(-1e-6, 1e-6) * scale;
    let yf = move |t: f64| a + b * t + 0.001 * scale * (t / 300.0).sin();
    let qs: Vec<(i64, i64)> = (0..8)
        .map(|j| {
            let d1 = if j % 2 == 0 { s } else { s + c.rng.range(0, reach) };
            (d1, d1 + if j == 7 { 0 } else { c.rng.range(0, reach + reach / 3) })
        })
        .collect();
    c.guard(name, |c| {
        let _ = take_log();
        set_yield(move |t| Ok(yf(t)));
        c.case(!m.is_empty(), key(s, &m, &y));
        let curve = match YieldCurve::<RecD, RecI<V>>::new(qd(s), &dates(&m), &vals::<V>(&y)) {
            Ok(x) => x,
            Err(e) => {
                c.violate(format!("{}: refused: {e}", name()));
                return;
            }
        };
        let l = take_log();
        let want: Vec<(f64, f64)> = m.iter().zip(&y).map(|(m, y)| ((m - s) as f64, *y)).collect();
        c.check(l.fits.len() == 1, || format!("{}: the interpolator was fitted {} times", name(), l.fits.len()));
        c.check(l.fits.last() == Some(&want), || format!("{}: fitted with {:?} instead of (time, quote) in the given order", name(), l.fits.last()));
        c.check(l.asked.is_empty(), || format!("{}: the interpolator was evaluated while building", name()));
        c.check(l.counted.iter().all(|x| x.0 == s), || format!("{}: a day count was taken from another date than settlement: {:?}", name(), l.counted));
        c.count("recorded fits", 1);
        for (d1, d2) in qs {
            let text = || format!("{}: factor from {} to {}", name(), t(d1), t(d2));
            let g = curve.discount_factor(qd(d1), qd(d2));
            let l = take_log();
            let v = |d: i64| -> f64 { V::of(yf((d - s) as f64)).into() };
            let (t1, t2) = ((d1 - s) as f64, (d2 - s) as f64);
            let e = if d1 == s { -t2 * v(d2) } else { t1 * v(d1) - t2 * v(d2) };
            let size = if d1 == s { t2 * v(d2).abs() } else { t1 * v(d1).abs() + t2 * v(d2).abs() };
            // each date's own factor is a number
            let plain = e.abs().max(t1 * v(d1).abs()).max(t2 * v(d2).abs()) < reach_of::<V>();
            if !plain {
                c.count("recorded factors beyond the number range (value not judged)", 1);
            }
            match g {
                Ok(x) => {
                    let x: f64 = x.into();
                    c.check(!plain || close::<V>(x, e.exp(), size) , || format!("{}: {x:e}, expected exp({e:e}) = {:e}", text(), e.exp()));
                }
                Err(e) => c.violate(format!("{}: refused: {e}", text())),
            }
            c.check(l.fits.is_empty(), || format!("{}: fitted again", text()));
            let ok = |x: &f64| *x == t2 || d1 != s && *x == t1;
            c.check(l.asked.iter().all(ok), || format!("{}: evaluated at {:?}, needed only {t2} {}", text(), l.asked, if d1 == s { String::new() } else { format!("and {t1}") }));
            c.check(!l.asked.is_empty() || d1 == d2, || format!("{}: never evaluated the interpolator", text()));
            c.check(l.counted.iter().all(|x| x.0 == s && (x.1 == d1 || x.1 == d2)), || format!("{}: day counts taken of {:?}", text(), l.counted));
            c.count("recorded factors", 1);
        }
    });
}

// ---- with the library's own parts
fn fractions<D: DayCount, V: Fl>(s: i64, m: &[i64]) -> Vec<V> {
    m.iter().map(|m| D::calculate_day_count_fraction::<V>(qd(s), qd(*m)).expect("MONITOR: day count refused ordered dates")).collect()
}

pub fn real<D: DayCount, V: Fl, I: Interpolator<Value = V>>(c: &mut Ctx, kind: &str, least: usize, law: bool) {
    let start = c.rng.chance(0.5);
    let (s, m, mut y) = market::<V>(&mut c.rng, least, start);
    let last = *m.last().unwrap_or(&s);
    if law && c.rng.chance(0.5) {
        // non-negative forward rates: t·y does not decrease along the quotes
        let steep = if c.rng.chance(0.2) { 10f64.powf(c.rng.real(-9.0, 1.0)) } else { 1.0 };
        let mut acc = 0.0;
        for (i, n) in m.iter().enumerate() {
            let days = (n - s) as f64;
            acc += c.rng.unit() * 0.0002 * steep * if i == 0 { days } else { (n - m[i - 1]) as f64 };
            y[i] = if days > 0.0 { V::of(acc * 365.0 / days).into() } else { V::of(0.03).into() };
        }
    }
    let name = || format!("{kind} ({}) {}", V::NAME, show(s, &m, &y));
    let mut ds: Vec<i64> = m.clone();
    for _ in 0..10 {
        ds.push(c.rng.range(m[0], last));
    }
    let pairs: Vec<(i64, i64)> = (0..14)
        .map(|_| {
            let (a, b) = (*c.rng.pick(&ds), *c.rng.pick(&ds));
            (a.min(b), a.max(b))
        })
        .collect();
    let mid: Vec<i64> = pairs.iter().map(|p| c.rng.range(p.0, p.1)).collect();
    c.guard(name, |c| {
        c.case(true, hash((kind, V::NAME, key(s, &m, &y))));
        let ts = fractions::<D, V>(s, &m);
        if !ts.windows(2).all(|w| w[0] < w[1]) {
            c.count("quotes coinciding in time (skipped)", 1);
            return;
        }
        let curve = match YieldCurve::<D, I>::new(qd(s), &dates(&m), &vals::<V>(&y)) {
            Ok(x) => x,
            Err(e) => {
                c.violate(format!("{}: refused: {e}", name()));
                return;
            }
        };
        let own = I::default().try_fit(&ts.iter().copied().zip(vals::<V>(&y)).collect::<Vec<_>>());
        let Ok(own) = own else {
            c.violate(format!("{}: the curve accepts data the interpolator refuses", name()));
            return;
        };
        let df = |a: i64, b: i64| -> Result<f64, String> { curve.discount_factor(qd(a), qd(b)).map(Into::into).map_err(|e| e.to_string()) };
        let frac = |d: i64| -> f64 { fractions::<D, V>(s, &[d])[0].into() };
        let yld = |d: i64| -> Option<f64> { own.try_value(V::of(frac(d))).ok().map(Into::into) };
        if !law {
            for d in &ds {
                let (f, Some(v)) = (frac(*d), yld(*d)) else {
                    c.violate(format!("{}: no yield at {}", name(), t(*d)));
                    continue;
                };
                let e = -f * v;
                if e.abs() > reach_of::<V>() {
                    c.count("factors beyond the number range (not judged)", 1);
                    continue;
                }
                match df(s, *d) {
                    Ok(x) => c.check(close::<V>(x, e.exp(), e), || format!("{}: factor to {} is {x:e}, expected exp(-{f}·{v}) = {:e}", name(), t(*d), e.exp())),
                    Err(e) => c.violate(format!("{}: factor to {} refused: {e}", name(), t(*d))),
                }
                c.count("factors from settlement", 1);
            }
            let big = y.iter().map(|y| y.abs()).fold(0.0, f64::max);
            for (n, q) in m.iter().zip(&y) {
                let f = frac(*n);
                if let Ok(x) = df(s, *n) {
                    let tol = V::EPS * (16.0 + 400.0 * f * big);
                    c.check((x - (-f * q).exp()).abs() <= tol * x.max(1.0), || format!("{}: the quote {q} at {} is priced {x:e}, expected {:e}", name(), t(*n), (-f * q).exp()));
                    c.count("quotes repriced", 1);
                }
            }
            return;
        }
        let mut seen: Vec<((i64, i64), f64)> = vec![];
        for ((a, b), k) in pairs.iter().copied().zip(mid) {
            let text = || format!("{}: {} {} {}", name(), t(a), t(k), t(b));
            let r = [df(a, b), df(a, k), df(k, b), df(s, a), df(s, b)];
            if let Some(Err(e)) = r.iter().find(|x| x.is_err()) {
                c.violate(format!("{}: refused: {e}", text()));
                continue;
            }
            let v: Vec<f64> = r.into_iter().map(Result::unwrap).collect();
            seen.push(((a, b), v[0]));
            let (Some(ya), Some(yk), Some(yb)) = (yld(a), yld(k), yld(b)) else { continue };
            let size = frac(a) * ya.abs() + frac(b) * yb.abs() + frac(k) * yk.abs();
            if size > reach_of::<V>() {
                // an oscillating spline through steep quotes: the factors leave the range of numbers
                c.count("period pairs beyond the number range (skipped)", 1);
                seen.pop();
                continue;
            }
            c.count("period pairs", 1);
            if size > 20.0 {
                c.count("period pairs with factors below 1e-8 or above 1e8", 1);
            }
            c.check(v.iter().all(|x| *x > 0.0 && x.is_finite()), || format!("{}: a factor is not positive: {v:?}", text()));
            c.check(close::<V>(v[1] * v[2], v[0], 3.0 * size), || format!("{}: {:e} · {:e} is not {:e}", text(), v[1], v[2], v[0]));
            c.check(close::<V>(v[0] * v[3], v[4], 3.0 * size), || format!("{}: {:e} is not the ratio of {:e} and {:e}", text(), v[0], v[4], v[3]));
            let e = frac(a) * ya - frac(b) * yb;
            if e <= 0.0 {
                c.count("periods with non-negative forward rate", 1);
                c.check(v[0] <= 1.0 + V::EPS * (16.0 + 16.0 * size), || format!("{}: factor {:e} above one although the forward rate is not negative", text(), v[0]));
            } else {
                c.check(close::<V>(v[0], e.exp(), size), || format!("{}: factor {:e}, expected {:e}", text(), v[0], e.exp()));
            }
            match df(a, a) {
                Ok(x) => c.check((x - 1.0).abs() <= V::EPS * (16.0 + 16.0 * size), || format!("{}: the empty period at {} has factor {x:e}", name(), t(a))),
                Err(e) => c.violate(format!("{}: empty period refused: {e}", text())),
            }
        }
        // earlier queries and refusals leave no trace
        let _ = df(s + 1, s);
        let _ = df(last, last + 100_000);
        let again = YieldCurve::<D, I>::new(qd(s), &dates(&m), &vals::<V>(&y));
        // a curve from the same day with other quotes, asked in between
        let sister = YieldCurve::<D, I>::new(qd(s), &dates(&m), &vals::<V>(&y.iter().map(|y| y + 0.25).collect::<Vec<_>>()));
        for ((a, b), v) in seen.iter().rev() {
            if let Ok(o) = &sister {
                let x: Option<f64> = o.discount_factor(qd(*a), qd(*b)).ok().map(Into::into);
                // every interpolator here shifts with its data
                let e = -0.25 * (frac(*b) - frac(*a));
                let size = e.abs() + frac(*b) * (0.25 + yld(*b).unwrap_or(0.0).abs()) + frac(*a) * yld(*a).unwrap_or(0.0).abs();
                let rough = V::EPS * (64.0 + 400.0 * size);
                c.check(x.is_some_and(|x| (x / v - e.exp()).abs() <= rough * (1.0 + e.exp())), || format!("{}: {} to {}: {v:e}, and {x:?} with all quotes 0.25 higher", name(), t(*a), t(*b)));
                c.count("factors of a sister curve", 1);
            }
            let x = df(*a, *b);
            c.check(x.as_ref().is_ok_and(|x| x.to_bits() == v.to_bits()), || format!("{}: {} to {}: {v:e} first, {x:?} later", name(), t(*a), t(*b)));
            if let Ok(o) = &again {
                let x: Option<f64> = o.discount_factor(qd(*a), qd(*b)).ok().map(Into::into);
                c.check(x.is_some_and(|x| x.to_bits() == v.to_bits()), || format!("{}: {} to {}: {v:e}, from an identical curve {x:?}", name(), t(*a), t(*b)));
            }
            c.count("repeated factors", 1);
        }
    });
}

/// One curve asked thousands of different questions, again and again.
fn life<D: DayCount, V: Fl, I: Interpolator<Value = V>>(c: &mut Ctx, kind: &str, questions: usize) {
    let (s, m, y) = loop {
        let x = market::<V>(&mut c.rng, 3, true);
        let ts = fractions::<D, V>(x.0, &x.1);
        if x.1.len() < 30 && x.1[x.1.len() - 1] - x.0 > 500 && ts.windows(2).all(|w| w[0] < w[1]) {
            break x;
        }
    };
    let last = m[m.len() - 1];
    let name = || format!("{kind} ({}) {}", V::NAME, show(s, &m, &y));
    let asked: Vec<(i64, i64)> = (0..questions)
        .map(|k| {
            let a = c.rng.range(s, last);
            match k % 4 {
                0 => (s, a),
                1 if c.rng.chance(0.2) => (s - 1, a),
                2 if c.rng.chance(0.2) => (a, last + 1 + k as i64),
                _ => (a, c.rng.range(a, last)),
            }
        })
        .collect();
    c.guard(name, |c| {
        c.case(true, hash((kind, V::NAME, key(s, &m, &y), questions)));
        let new = || YieldCurve::<D, I>::new(qd(s), &dates(&m), &vals::<V>(&y));
        let (Ok(old), Ok(_)) = (new(), new()) else {
            c.violate(format!("{}: refused", name()));
            return;
        };
        let bits = |k: &YieldCurve<D, I>, (a, b): (i64, i64)| k.discount_factor(qd(a), qd(b)).ok().map(|v| Into::<f64>::into(v).to_bits());
        let first: Vec<Option<u64>> = asked.iter().map(|q| bits(&old, *q)).collect();
        let mut order: Vec<usize> = (0..asked.len()).collect();
        for _ in 0..3 {
            for j in (1..order.len()).rev() {
                let z = c.rng.below(j as u64 + 1) as usize;
                order.swap(j, z);
            }
            for j in &order {
                let b = bits(&old, asked[*j]);
                c.check(b == first[*j], || format!("{}: {} to {}: {:?} at first, {:?} after thousands of questions", name(), t(asked[*j].0), t(asked[*j].1), first[*j].map(f64::from_bits), b.map(f64::from_bits)));
            }
        }
        for j in order.iter().take(200) {
            let b = new().ok().and_then(|k| bits(&k, asked[*j]));
            c.check(b == first[*j], || format!("{}: {} to {}: {:?}, a new curve says {:?}", name(), t(asked[*j].0), t(asked[*j].1), first[*j].map(f64::from_bits), b.map(f64::from_bits)));
        }
        c.count("questions to long-lived curves", 4 * asked.len() as u64);
    });
}

fn reals(c: &mut Ctx, n: u64, law: bool) {
    macro_rules! all { ($($d:ident, $v:ty);*) => { $(
        real::<$d, $v, Linear<$v>>(c, concat!(stringify!($d), " linear"), 2, law);
        real::<$d, $v, NaturalCubic<$v>>(c, concat!(stringify!($d), " natural cubic"), 3, law);
        real::<$d, $v, CatmullRom<$v>>(c, concat!(stringify!($d), " Catmull-Rom"), 3, law);
    )* } }
    for _ in 0..n {
        all!(Act365, f64; Act360, f64; Thirty360, f64; Act365, f32; Act360, f32; Thirty360, f32);
        real::<Act365, f64, Linear<f64>>(c, "Act365 linear, single quote", 1, law);
        real::<Odd, f64, Linear<f64>>(c, "non-additive day count, linear", 2, law);
        real::<Odd, f32, NaturalCubic<f32>>(c, "non-additive day count, natural cubic", 3, law);
    }
}

pub fn t01(c: &mut Ctx) {
    c.rule = "random curves: with a recording day count and interpolator (every call observed, arbitrary yields), and with the library's 3 day counts and a non-additive one x 3 interpolators x 2 precisions; keys are settlement, maturities and quotes".into();
    c.require(3000);
    crate::meanwhile::prepare(c);
    for k in 0..c.n(12_000, 300_000) {
        if k % 3 == 2 { recorded::<f32>(c, k) } else { recorded::<f64>(c, k) }
    }
    let n = c.n(400, 10_000);
    reals(c, n, false);
    c.sample(|| "interpolator fitted with [(30, 0.02), (365, 0.03)] in the order given; factor to day 365 evaluated at [365]".into());
    crate::meanwhile::settle(c);
}

pub fn t02(c: &mut Ctx) {
    c.rule = "random curves (3 day counts and a non-additive one x 3 interpolators x 2 precisions), pairs of dates and a date between; products, ratios, empty periods, signs, repetition in another order; keys are the curves".into();
    c.require(3000);
    crate::meanwhile::prepare(c);
    let n = c.n(600, 15_000);
    reals(c, n, true);
    for k in 0..c.n(1, 12) {
        let q = if k % 6 == 0 { 20_000 } else { 3000 };
        life::<Act365, f64, Linear<f64>>(c, "Act365 linear", q);
        life::<Act360, f64, NaturalCubic<f64>>(c, "Act360 natural cubic", q);
        life::<Thirty360, f64, CatmullRom<f64>>(c, "Thirty360 Catmull-Rom", q);
        life::<Act365, f32, NaturalCubic<f32>>(c, "Act365 natural cubic", q / 2);
    }
    c.sample(|| "DF(a,k)·DF(k,b) = DF(a,b) = DF(0,b)/DF(0,a) for a<=k<=b".into());
    crate::meanwhile::settle(c);
}

fn kind<T>(r: &QLabResult<T>) -> &'static str {
    match r {
        Ok(_) => "accepted",
        Err(QLabError::ComputeError(ComputeError::InvalidInput(_))) => "invalid input",
        Err(QLabError::ComputeError(ComputeError::InterpolationError)) => "interpolation error",
        Err(_) => "another error",
    }
}

fn t03_case<D: DayCount, V: Fl, I: Interpolator<Value = V>>(c: &mut Ctx, kindname: &str, least: usize, thirty: bool) {
    let start = c.rng.chance(0.3);
    let (s, m, y) = market::<V>(&mut c.rng, least, start);
    let name = || format!("{kindname} ({}) {}", V::NAME, show(s, &m, &y));
    let shape = c.rng.below(8);
    let (mut m2, mut y2, mut s2) = (m.clone(), y.clone(), s);
    let mut expect = "accepted";
    match shape {
        0 => {
            y2.pop();
            expect = "invalid input";
        }
        1 => {
            let more = *c.rng.pick(&[1, 1, 1, 2, 256, 512, 65_536]);
            y2.resize(y2.len() + more, 0.01);
            expect = "invalid input";
        }
        2 => {
            m2.clear();
            expect = if y2.is_empty() { "accepted" } else { "invalid input" };
        }
        3 if m.len() > 1 => {
            let i = c.rng.below(m.len() as u64 - 1) as usize;
            if c.rng.chance(0.5) { m2[i + 1] = m2[i] } else { m2.swap(i, i + 1) }
            expect = "interpolation error";
        }
        4 if least > 1 => {
            let k = c.rng.below(least as u64) as usize;
            m2.truncate(k);
            y2.truncate(k);
            expect = if least == 3 { "interpolation error" } else { "accepted" };
        }
        5 => {
            // settlement after some maturities
            s2 = m[m.len() - 1] + c.rng.range(1, 400);
            expect = if thirty { "invalid input" } else { "accepted" };
        }
        _ => {}
    }
    let gap = c.rng.range(1, 2000);
    let inside: Vec<i64> = (0..6).map(|_| c.rng.range(m[0], m[m.len() - 1])).collect();
    c.guard(name, |c| {
        c.case(true, hash((kindname, shape, key(s2, &m2, &y2), V::NAME)));
        let ts_ok = |m: &[i64], s: i64| {
            let v: Vec<Option<V>> = m.iter().map(|d| D::calculate_day_count_fraction(qd(s), qd(*d)).ok()).collect();
            v.windows(2).all(|w| matches!((w[0], w[1]), (Some(a), Some(b)) if a < b))
        };
        let g = YieldCurve::<D, I>::new(qd(s2), &dates(&m2), &vals::<V>(&y2));
        let text = || format!("{}, changed to {}", name(), show(s2, &m2, &y2));
        let coincide = expect == "accepted" && !ts_ok(&m2, s2);
        if !coincide {
            c.count(&format!("construction: {expect}"), 1);
            c.check(kind(&g) == expect, || format!("{}: {}, expected {expect}", text(), kind(&g)));
        }
        if !ts_ok(&m, s) {
            return;
        }
        let curve = match YieldCurve::<D, I>::new(qd(s), &dates(&m), &vals::<V>(&y)) {
            Ok(x) => x,
            Err(e) => {
                c.violate(format!("{}: refused: {e}", name()));
                return;
            }
        };
        let (first, last) = (m[0], m[m.len() - 1]);
        let mut ask = |d1: i64, d2: i64, want: &[&str]| {
            if !(minn()..=maxn()).contains(&d1) || !(minn()..=maxn()).contains(&d2) {
                return;
            }
            let g = curve.discount_factor(qd(d1), qd(d2));
            c.count(&format!("factor: {}", want[0]), 1);
            c.check(want.contains(&kind(&g)), || format!("{}: factor from {} to {}: {}, expected {}", name(), t(d1), t(d2), kind(&g), want[0]));
        };
        for d in inside {
            ask(s, d, &["accepted"]);
            ask(first, d, &["accepted"]);
            ask(d, last, &["accepted"]);
            if d > first {
                ask(d, d - 1, &["invalid input"]);
            }
            ask(s - gap, d, &["invalid input"]);
            ask(s - 1, d, &["invalid input"]);
            ask(d, s - 1, &["invalid input"]);
            ask(d, last + gap + 2, &["interpolation error"]);
            if first - s > 2 {
                // 30/360 gives the 30th and the 31st the same time
                ask(s, first - 2, &["interpolation error"]);
                ask(s + 1, d, if s + 1 < first - 1 { &["interpolation error"] } else { &["interpolation error", "accepted"] });
            }
        }
        ask(s, last, &["accepted"]);
        ask(first, first, &["accepted"]);
        ask(last, last, &["accepted"]);
        // both days outside the quotes, be they one and the same
        let late = last + gap + 2;
        ask(late, late, &["interpolation error"]);
        ask(late, late + gap, &["interpolation error"]);
        ask(s, late, &["interpolation error"]);
        if first - s > 2 {
            ask(s, s, &["interpolation error"]);
            ask(first - 2, first - 2, &["interpolation error"]);
        }
        ask(s - gap, s - gap, &["invalid input"]);
        ask(s - 2, s - 1, &["invalid input"]);
        ask(s - 1, s - 2, &["invalid input"]);
        ask(minn(), maxn(), &["invalid input"]);
        ask(maxn(), minn(), &["invalid input"]);
        ask(s, maxn(), &["interpolation error"]);
    });
}

pub fn t03(c: &mut Ctx) {
    c.rule = "random curves and one defect each (lengths, order, too few quotes, settlement after maturities, a refusing day count or interpolator), and factors between dates before settlement, reversed, outside the quotes; keys are the inputs".into();
    c.require(3000);
    crate::meanwhile::prepare(c);
    macro_rules! all { ($($d:ident, $v:ty, $th:literal);*) => { $(
        t03_case::<$d, $v, Linear<$v>>(c, concat!(stringify!($d), " linear"), 1, $th);
        t03_case::<$d, $v, NaturalCubic<$v>>(c, concat!(stringify!($d), " natural cubic"), 3, $th);
        t03_case::<$d, $v, CatmullRom<$v>>(c, concat!(stringify!($d), " Catmull-Rom"), 3, $th);
    )* } }
    for _ in 0..c.n(600, 15_000) {
        all!(Act365, f64, false; Act360, f64, false; Thirty360, f64, true; Act365, f32, false; Act360, f32, false; Thirty360, f32, true);
    }
    // injected refusals of the day count and of the interpolator
    for k in 0..c.n(4000, 80_000) {
        let (s, m, y) = market::<f64>(&mut c.rng, 1, k % 2 == 0);
        let i = c.rng.below(m.len() as u64) as usize;
        let e = c.rng.below(4) as u8;
        let (d1, d2) = (s + c.rng.range(1, 500), s + c.rng.range(500, 5000));
        c.guard(|| format!("refusing parts, {}", show(s, &m, &y)), |c| {
            let name = || format!("refusing parts, {}", show(s, &m, &y));
            c.case(true, hash((k, "refuse")));
            type C = YieldCurve<RecD, RecI<f64>>;
            let build = || C::new(qd(s), &dates(&m), &y);
            let _ = take_log();
            set_yield(|_| Ok(0.01));
            plan(|l| l.refuse_day = Some(m[i]));
            let g = build();
            let l = take_log();
            refused_naming(c, &|| format!("{}: day count refusing {}", name(), t(m[i])), &g.map(|_| ()), &[format!("RecD refuses {}", m[i])]);
            c.check(l.fits.is_empty(), || format!("{}: fitted although a day count was refused", name()));
            plan(|l| l.refuse_fit = Some(e));
            let g = build();
            let _ = take_log();
            c.check(kind(&g) == "interpolation error", || format!("{}: interpolator refusing to fit: {}", name(), kind(&g)));
            let Ok(curve) = build() else {
                c.violate(format!("{}: refused", name()));
                return;
            };
            // refusing at the later or the earlier time only
            for (bad, from) in [(d2, s), (d2, d1), (d1, d1)] {
                let _ = take_log();
                let x = (bad - s) as f64;
                set_yield(move |t| if t == x { Err(e) } else { Ok(0.01) });
                let g = curve.discount_factor(qd(from), qd(d2));
                c.check(kind(&g) == "interpolation error", || format!("{}: no yield at {}, factor from {} to {}: {}", name(), t(bad), t(from), t(d2), kind(&g)));
                set_yield(|_| Ok(0.01));
                plan(|l| l.refuse_day = Some(bad));
                let g = curve.discount_factor(qd(from), qd(d2));
                c.check(kind(&g) == "invalid input", || format!("{}: no day count to {}, factor from {} to {}: {}", name(), t(bad), t(from), t(d2), kind(&g)));
                let _ = take_log();
                c.count("injected refusals", 2);
            }
        });
    }
    // any dates at all, through a curve accepting everything
    for _ in 0..c.n(100_000, 2_000_000) {
        let (s, a, b) = (any_day(&mut c.rng), any_day(&mut c.rng), any_day(&mut c.rng));
        let a = if c.rng.chance(0.2) { s } else { a };
        c.guard(|| format!("settlement {}, factor from {} to {}", t(s), t(a), t(b)), |c| {
            set_yield(|_| Ok(0.0));
            let _ = take_log();
            let bad = b < a || a < s || b < s;
            c.case(bad, hash((s, a, b)));
            let Ok(curve) = YieldCurve::<RecD, RecI<f64>>::new(qd(s), &[], &[]) else {
                c.violate("a curve of a custom interpolator was refused".into());
                return;
            };
            let g = curve.discount_factor(qd(a), qd(b));
            let ok = if bad { kind(&g) == "invalid input" } else { matches!(g, Ok(x) if x == 1.0) };
            c.check(ok, || format!("settlement {}, factor from {} to {}: {g:?}", t(s), t(a), t(b)));
        });
    }
    c.sample(|| "3 maturities and 2 quotes -> invalid input; factor past the last quote -> interpolation error".into());
    crate::meanwhile::settle(c);
}
