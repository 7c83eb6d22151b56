//! B01–B04: bonds, read through a recording curve that isolates single payments.
use crate::civil::{add_months, from_num, num, wd};
use crate::curve::market;
use crate::date::{any_day, iso, maxn, minn};
use crate::fin::*;
use crate::math::Fl;
use crate::rt::*;
use qlab_instrument::bond::Bond;
use qlab_math::interpolation::linear::Linear;
use qlab_math::interpolation::spline::natural_cubic::NaturalCubic;
use qlab_math::interpolation::Interpolator;
use qlab_termstructure::yield_curve::YieldCurve;
use qlab_time::day_count::{act_360::Act360, act_365::Act365, thirty_360::Thirty360, DayCount};
use qlab_time::frequency::Frequency;
use std::collections::{BTreeMap, BTreeSet};

fn t(n: i64) -> String {
    iso(from_num(n))
}
pub fn plus(n: i64, months: i64) -> i64 {
    add_months(from_num(n), months).num()
}
fn rolled(n: i64) -> i64 {
    if wd(n) < 5 { n } else { n + 7 - wd(n) }
}

#[derive(Clone, Debug, Hash)]
pub struct Terms {
    pub issue: i64,
    pub first: i64,
    pub pen: i64,
    pub mat: i64,
}
impl std::fmt::Display for Terms {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "issue {} first {} penultimate {} maturity {}", t(self.issue), t(self.first), t(self.pen), t(self.mat))
    }
}

pub struct Flow {
    pub due: i64,
    pub pay: i64,
    /// amount in units of a regular coupon, and of face
    pub coupons: f64,
    pub face: f64,
}

/// The schedule of the statement; None when a stub cannot be prorated.
pub fn schedule(x: &Terms) -> Option<Vec<Flow>> {
    let mut v = vec![];
    let mut k = 0;
    loop {
        let due = plus(x.first, 6 * k);
        if due > x.pen {
            break;
        }
        v.push(Flow { due, pay: rolled(due), coupons: 1.0, face: 0.0 });
        k += 1;
    }
    let prior = plus(x.first, -6);
    if x.issue != prior {
        let f = v.first_mut()?;
        if x.issue > prior {
            f.coupons = (x.first - x.issue) as f64 / (x.first - prior) as f64;
        } else {
            let second = plus(prior, -6);
            f.coupons = 1.0 + (prior - x.issue) as f64 / (prior - second) as f64;
        }
    }
    let reg = plus(x.pen, 6);
    let c = if x.mat < reg {
        (x.mat - x.pen) as f64 / (reg - x.pen) as f64
    } else if x.mat > reg {
        1.0 + (x.mat - reg) as f64 / (plus(reg, 6) - reg) as f64
    } else {
        1.0
    };
    v.push(Flow { due: x.mat, pay: x.mat, coupons: c, face: 1.0 });
    Some(v)
}

/// An orderly bond: issue < first <= penultimate < maturity.
pub fn orderly(r: &mut Rng) -> Terms {
    let first = match r.below(6) {
        0 => num(r.range(1950, 2080), *r.pick(&[1, 3, 5, 7, 8, 10, 12]), 31),
        1 => num(r.range(1950, 2080), r.range(1, 12), r.range(28, 30).min(28)) + r.range(0, 3),
        2 => num(4 * r.range(490, 519), 2, 29),
        3 => num(r.range(1, 9000), r.range(1, 12), r.range(1, 28)),
        _ => r.range(num(1950, 1, 1), num(2080, 1, 1)),
    };
    let k = match r.below(5) {
        0 => 0,
        1 => 1,
        2 => r.range(40, 100),
        3 if r.chance(0.08) => r.range(100, 2500),
        _ => r.range(2, 30),
    };
    let mut pen = plus(first, 6 * k);
    if r.chance(0.15) {
        pen += r.range(0, 150);
    }
    // a long stub may reach over several periods
    let stretch = if r.chance(0.1) { r.range(2, 12) } else { 1 };
    let prior = plus(first, -6);
    let issue = match r.below(5) {
        0 | 1 => prior,
        2 => r.range(prior + 1, first - 1),
        3 => r.range(plus(prior, -6 * stretch), prior - 1),
        _ => prior + r.range(-2, 2),
    };
    let reg = plus(pen, 6);
    let mat = match r.below(5) {
        0 | 1 => reg,
        2 => r.range(pen + 1, reg - 1),
        3 => r.range(reg + 1, plus(reg, 6 * stretch)),
        _ => reg + r.range(-2, 2),
    };
    Terms { issue, first, pen, mat }
}

/// An identifier picked by the terms: what a bond is called must not matter.
pub fn named(x: &Terms) -> String {
    const KINDS: [&str; 16] = ["id", "", "JGB 349", "US912810TM09", "ZERO", "perp", "FRN-2030", "t-bill", "国債", "a b", "0", "TEST", "Bond\n", "'", "XS1234567890 144A", "floating"];
    let h = hash(x);
    let id = KINDS[(h % 24).min(15) as usize];
    if h % 24 == 23 { id.repeat(1 + (h >> 32) as usize % 40) } else { id.into() }
}

pub fn build<V: Fl>(x: &Terms, rate: f64, face: f64, id: &str) -> Option<Bond<V>> {
    Bond::new(id, qd(x.issue), qd(x.first), qd(x.pen), qd(x.mat), Frequency::SA, V::of(rate), V::of(face))
}

/// Values the bond on `settle` with discount factor `w(payment day)`.
fn valued<V: Fl>(b: &Bond<V>, settle: i64, w: impl Fn(i64) -> f64 + 'static) -> (Result<f64, String>, BTreeSet<i64>) {
    let _ = take_log();
    set_yield(move |t| {
        if t == 0.0 {
            return Ok(0.0);
        }
        let w = w(settle + t as i64);
        Ok(if w == 1.0 { 0.0 } else if w == 0.0 { f64::INFINITY } else { -w.ln() / t })
    });
    let curve = YieldCurve::<RecD, RecI<V>>::new(qd(settle), &[], &[]).unwrap_or_else(|e| panic!("{MONITOR} curve refused: {e}"));
    let _ = take_log();
    let v = b.discounted_value(qd(settle), &curve).map(Into::into).map_err(|e| e.to_string());
    let l = take_log();
    (v, l.asked.iter().filter(|t| **t != 0.0).map(|t| settle + *t as i64).collect())
}

/// A face amount: an everyday one, or one of any size.
fn amount<V: Fl>(r: &mut Rng, everyday: &[f64]) -> f64 {
    if r.chance(0.7) {
        return *r.pick(everyday);
    }
    let reach = if V::EPS > 1e-10 { 12.0 } else { 60.0 };
    10f64.powf(r.real(-reach, reach)) * if r.chance(0.2) { -1.0 } else { 1.0 }
}
pub fn sched_case<V: Fl>(c: &mut Ctx, amounts: bool) {
    let x = orderly(&mut c.rng);
    let rate: f64 = V::of(match c.rng.below(6) {
        0 => 0.0,
        1 => -c.rng.unit() * 0.02,
        2 => c.rng.unit() * *c.rng.pick(&[1e-9, 1e-4, 3.0, 100.0]),
        _ => c.rng.unit() * 0.2,
    })
    .into();
    let face: f64 = V::of(amount::<V>(&mut c.rng, &[1.0, 100.0, 1000.0, 0.5, 123_456.0, -100.0, 0.0])).into();
    let name = || format!("bond ({}) {x}, rate {rate}, face {face}", V::NAME);
    let few = c.rng.next();
    c.guard(name, |c| {
        let flows = schedule(&x).expect("orderly bond");
        c.case(flows.len() > 1, hash((&x, rate.to_bits(), face.to_bits(), V::NAME)));
        let Some(b) = build::<V>(&x, rate, face, &named(&x)) else {
            c.violate(format!("{}: refused", name()));
            return;
        };
        let start = x.issue.min(x.first) - 10;
        let mut due: BTreeMap<i64, BTreeSet<i64>> = BTreeMap::new();
        for f in &flows {
            due.entry(f.due).or_default().insert(f.pay);
        }
        if !amounts {
            let expect = |s: i64| -> BTreeSet<i64> { flows.iter().filter(|f| f.due > s).map(|f| f.pay).collect() };
            let mut probe: Vec<i64> = vec![start, x.issue, x.mat + 1, x.mat + 400];
            for f in &flows {
                probe.extend([f.due - 1, f.due, f.pay, f.pay - 1]);
            }
            if probe.len() > 60 {
                // long bonds: the ends and a random middle part
                let k = 20 + (few % (probe.len() as u64 - 40)) as usize;
                let mut p: Vec<i64> = probe[..20].to_vec();
                p.extend(&probe[k..(k + 20).min(probe.len())]);
                p.extend(&probe[probe.len() - 20..]);
                probe = p;
            }
            for s in probe {
                let (v, asked) = valued(&b, s, |_| 1.0);
                let want = expect(s);
                c.count("settlement dates probed", 1);
                c.check(v.is_ok(), || format!("{}: valuation on {} refused", name(), t(s)));
                c.check(asked == want, || {
                    let extra: Vec<String> = asked.difference(&want).map(|d| t(*d)).collect();
                    let missing: Vec<String> = want.difference(&asked).map(|d| t(*d)).collect();
                    format!("{}: seen from {} pays on unexpected {extra:?}, lacks {missing:?}", name(), t(s))
                });
            }
            if flows.len() > 101 {
                c.count("bonds of more than a hundred coupons", 1);
            }
            for f in &flows {
                if f.pay != f.due {
                    c.count("payments moved off a weekend", 1);
                }
                if from_num(f.due).2 != from_num(x.first).2 && f.face == 0.0 {
                    c.count("due dates clamped to the month's length", 1);
                }
            }
            if wd(x.mat) > 4 {
                c.count("maturities on a weekend", 1);
            }
            return;
        }
        // amounts: isolate each payment day
        let coupon = rate * face / 2.0;
        let mut sum: BTreeMap<i64, (f64, f64)> = BTreeMap::new();
        for f in &flows {
            let e = sum.entry(f.pay).or_default();
            e.0 += f.coupons * coupon + f.face * face;
            e.1 += f.coupons.abs().max(1.0) * coupon.abs() + f.face * face.abs();
        }
        let all: Vec<i64> = sum.keys().copied().collect();
        let n = all.len();
        for (j, pay) in all.iter().enumerate() {
            // first, second, last two, and some of the middle
            if n > 12 && j > 1 && j + 2 < n && (j as u64 + few) % 5 != 0 {
                continue;
            }
            let p = *pay;
            let (v, _) = valued(&b, start, move |d| if d == p { 1.0 } else { 0.0 });
            let (want, size) = sum[pay];
            c.count("payments isolated", 1);
            match v {
                Ok(v) => c.check((v - want).abs() <= 16.0 * V::EPS * size, || format!("{}: pays {v:e} on {}, expected {want:e}", name(), t(p))),
                Err(e) => c.violate(format!("{}: valuation refused: {e}", name())),
            }
        }
        let prior = plus(x.first, -6);
        let reg = plus(x.pen, 6);
        c.count(if x.issue == prior { "regular first periods" } else if x.issue > prior { "short first periods" } else { "long first periods" }, 1);
        c.count(if x.mat == reg { "regular final periods" } else if x.mat < reg { "short final periods" } else { "long final periods" }, 1);
    });
}

pub fn b01(c: &mut Ctx) {
    c.rule = "random orderly bonds (month-end, leap-day and ordinary first dates, 0-100 regular coupons, stubs) valued through a recording curve on the days around every due and payment date; keys are the terms".into();
    c.require(2000);
    crate::meanwhile::prepare(c);
    for k in 0..c.n(12_000, 300_000) {
        if k % 4 == 3 { sched_case::<f32>(c, false) } else { sched_case::<f64>(c, false) }
    }
    c.sample(|| "first 2023-08-31: due 2023-08-31, 2024-02-29, 2024-08-31 (paid 2024-09-02), …".into());
    crate::meanwhile::settle(c);
}

pub fn b02(c: &mut Ctx) {
    c.rule = "random orderly bonds, each payment isolated by a discount curve that is one on its day and zero elsewhere; keys are the terms, rate and face".into();
    c.require(2000);
    crate::meanwhile::prepare(c);
    for k in 0..c.n(20_000, 500_000) {
        if k % 4 == 3 { sched_case::<f32>(c, true) } else { sched_case::<f64>(c, true) }
    }
    c.sample(|| "short first period of 100 of 184 days pays 100/184 of rate·face/2".into());
    crate::meanwhile::settle(c);
}

pub fn real_value<D: DayCount, V: Fl, I: Interpolator<Value = V>>(c: &mut Ctx, kind: &str, least: usize) {
    let (s, mut m, mut y) = market::<V>(&mut c.rng, least, false);
    // no steeper than what an oscillating spline keeps within the range of numbers
    let most = y.iter().map(|y| y.abs()).fold(0.0, f64::max) * (m.last().map_or(0, |m| m - s) + 500) as f64 / 360.0;
    if most > 4.0 {
        y.iter_mut().for_each(|y| *y = V::of(*y * 4.0 / most).into());
    }
    let mut x = orderly(&mut c.rng);
    // put the bond somewhere on (or partly off) the curve
    let shift_target = s + c.rng.range(-2500, 1500);
    let k = c.rng.range(0, 8);
    let first = shift_target.clamp(minn() + 4000, maxn() - 40_000);
    let d = first - x.first;
    x = Terms { issue: x.issue + d, first, pen: plus(first, 6 * k), mat: plus(plus(first, 6 * k), 6) + c.rng.range(-100, 100) };
    let covered = c.rng.chance(0.8);
    if covered {
        let last = m.len() - 1;
        if m[last] < x.mat + 5 {
            m[last] = x.mat + c.rng.range(5, 500);
        }
        if m.len() > 1 {
            m[0] = m[0].min(s + 1);
        }
    }
    let settle = match c.rng.below(5) {
        0 | 1 => s,
        2 => s + c.rng.range(1, 400),
        3 => x.mat + c.rng.range(-1, 3),
        _ => s + c.rng.range(-30, 3000),
    };
    let (rate, face) = (Into::<f64>::into(V::of(c.rng.real(0.0, 0.12))), V::of(amount::<V>(&mut c.rng, &[1.0, 100.0, 1000.0])).into());
    let a = Into::<f64>::into(V::of(c.rng.real(-4.0, 4.0)));
    let name = || format!("{kind} ({}) bond {x}, rate {rate}, face {face}, curve from {}, valued on {}", V::NAME, t(s), t(settle));
    c.guard(name, |c| {
        let ds: Vec<_> = m.iter().map(|n| qd(*n)).collect();
        let ys: Vec<V> = y.iter().map(|y| V::of(*y)).collect();
        let Ok(curve) = YieldCurve::<D, I>::new(qd(s), &ds, &ys) else {
            c.count("curves refused (coinciding times), skipped", 1);
            return;
        };
        let Some(flows) = schedule(&x) else {
            return;
        };
        let Some(b) = build::<V>(&x, rate, face, &named(&x)) else {
            c.violate(format!("{}: refused", name()));
            return;
        };
        c.case(true, hash((kind, &x, s, settle, V::NAME)));
        let v = b.discounted_value(qd(settle), &curve);
        let future: Vec<&Flow> = flows.iter().filter(|f| f.due > settle).collect();
        let mut want = 0.0;
        let mut size = 0.0;
        let mut errors: Vec<String> = vec![];
        for f in &future {
            match curve.discount_factor(qd(settle), qd(f.pay)) {
                Ok(df) => {
                    let df: f64 = df.into();
                    let am = f.coupons * rate * face / 2.0 + f.face * face;
                    want += df * am;
                    size += (df * am).abs() + (df * face).abs();
                }
                Err(e) => errors.push(format!("{e:?}")),
            }
        }
        let small = |d: i64| curve.discount_factor(qd(s), qd(d)).map_or(true, |f| Into::<f64>::into(f).ln().abs() < crate::curve::reach_of::<V>());
        let numbers = settle < s || small(settle) && future.iter().all(|f| small(f.pay));
        if size > if V::EPS > 1e-10 { 1e36 } else { 1e300 } || size.is_nan() || !numbers {
            // a spline oscillating through steep quotes: not a number's worth
            c.count("valuations beyond the number range (skipped)", 1);
            return;
        }
        let v = match v {
            Err(e) => {
                c.count("valuations refused by the curve", 1);
                c.check(errors.contains(&format!("{e:?}")), || format!("{}: refused with {e:?}, the curve's own refusals are {errors:?}", name()));
                return;
            }
            Ok(v) => Into::<f64>::into(v),
        };
        c.check(errors.is_empty(), || format!("{}: valued {v} although the curve refuses {errors:?}", name()));
        c.count(if future.is_empty() { "valuations after maturity" } else { "valuations" }, 1);
        let tol = 16.0 * V::EPS * (future.len() + 2) as f64 * size;
        c.check((v - want).abs() <= tol, || format!("{}: value {v:e}, the discounted payments sum to {want:e}", name()));
        if future.is_empty() {
            c.check(v == 0.0, || format!("{}: worth {v} after maturity", name()));
        }
        // repetition, linearity
        let again: Option<f64> = b.discounted_value(qd(settle), &curve).ok().map(Into::into);
        c.check(again.map(f64::to_bits) == Some(v.to_bits()), || format!("{}: {v:e} first, {again:?} when repeated", name()));
        let of = |r: f64, f: f64| -> f64 { build::<V>(&x, r, f, "z").and_then(|b| b.discounted_value(qd(settle), &curve).ok()).map_or(f64::NAN, Into::into) };
        let (z, scaled, zero) = (of(rate, face), of(rate, face * a), of(0.0, face));
        c.check(z.to_bits() == v.to_bits(), || format!("{}: {v:e}, an identical bond {z:e}", name()));
        c.check((scaled - a * v).abs() <= 4.0 * tol * (1.0 + a.abs()), || format!("{}: value {v:e}, with face times {a} {scaled:e}", name()));
        let twice = of(2.0 * rate, face);
        c.check((twice - zero - 2.0 * (v - zero)).abs() <= 8.0 * tol, || format!("{}: not linear in the rate: {zero:e} {v:e} {twice:e}", name()));
    });
}

/// One bond valued thousands of times, on several curves in turn.
fn life(c: &mut Ctx, valuations: usize) {
    let x = loop {
        let x = orderly(&mut c.rng);
        if x.pen - x.first < 365 * 15 {
            break x;
        }
    };
    let seed = c.rng.next();
    c.guard(|| format!("bond {x}, {valuations} valuations"), |c| {
        let name = || format!("bond {x}, {valuations} valuations");
        let new = || build::<f64>(&x, 0.0425, 100.0, "old");
        let Some(old) = new() else {
            c.violate(format!("{}: refused", name()));
            return;
        };
        c.case(true, hash((&x, valuations)));
        let from = x.issue.min(x.first) - 3;
        let curves: Vec<_> = (0..3)
            .filter_map(|k| {
                let y = 0.01 + k as f64 * 0.011;
                YieldCurve::<Act365, Linear<f64>>::new(qd(from), &[qd(from), qd(x.mat + if k == 2 { -100 } else { 400 })], &[y, y + 0.004]).ok()
            })
            .collect();
        let ask = |b: &Bond<f64>, j: usize| -> Option<u64> {
            let k = hash((seed, j)) as i64 & 0xffff_ffff;
            b.discounted_value(qd(from + k % (x.mat + 2 - from)), &curves[j % curves.len()]).ok().map(f64::to_bits)
        };
        let first: Vec<Option<u64>> = (0..valuations).map(|j| ask(&old, j)).collect();
        for j in (0..valuations).rev() {
            let b = ask(&old, j);
            c.check(b == first[j], || format!("{}: valuation {j} gave {:?} at first and {:?} later", name(), first[j].map(f64::from_bits), b.map(f64::from_bits)));
        }
        for j in (0..valuations).step_by(valuations / 200) {
            let b = new().and_then(|b| ask(&b, j));
            c.check(b == first[j], || format!("{}: valuation {j} gave {:?}, of a new bond {:?}", name(), first[j].map(f64::from_bits), b.map(f64::from_bits)));
        }
        c.count("valuations of long-lived bonds", 2 * valuations as u64);
    });
}

pub fn b03(c: &mut Ctx) {
    c.rule = "random bonds on random curves (recording, and 3 day counts x 2 interpolators x 2 precisions), valued before, between and after payments, on and off the curve's range; keys are terms and dates".into();
    c.require(3000);
    crate::meanwhile::prepare(c);
    for _ in 0..c.n(1500, 40_000) {
        real_value::<Act365, f64, Linear<f64>>(c, "Act365 linear", 3);
        real_value::<Act365, f64, NaturalCubic<f64>>(c, "Act365 natural cubic", 3);
        real_value::<Act360, f64, NaturalCubic<f64>>(c, "Act360 natural cubic", 3);
        real_value::<Thirty360, f64, Linear<f64>>(c, "Thirty360 linear", 3);
        real_value::<Act360, f32, Linear<f32>>(c, "Act360 linear", 3);
        real_value::<Thirty360, f32, NaturalCubic<f32>>(c, "Thirty360 natural cubic", 3);
    }
    for k in 0..c.n(5, 40) {
        life(c, if k % 30 == 0 { 70_000 } else { 2000 });
    }
    // terms in any order: a payment counts while its own due date lies ahead
    for k in 0..c.n(8000, 200_000) {
        let mut x = orderly(&mut c.rng);
        if x.pen - x.first > 365 * 40 {
            continue;
        }
        match c.rng.below(4) {
            0 => x.mat = x.pen - c.rng.range(0, 400),
            1 => x.mat = c.rng.range(x.issue - 100, x.pen + 1),
            2 => x.issue = c.rng.range(x.first, x.mat + 200),
            _ => (x.issue, x.mat) = (x.mat, x.issue),
        }
        // the statement speaks of stubs up to two regular periods here
        if x.issue < plus(plus(x.first, -6), -6) {
            continue;
        }
        let (rate, face) = (c.rng.real(-0.01, 0.1), 100.0);
        let lo = x.issue.min(x.mat).min(x.first);
        let hi = x.issue.max(x.mat).max(x.pen);
        let mut at: Vec<i64> = (0..4).map(|_| c.rng.range(lo - 10, hi + 10)).collect();
        at.extend([x.mat - 1, x.mat, x.first - 1, x.first]);
        let seed = c.rng.next();
        c.guard(|| format!("disorderly bond {x}"), |c| {
            let Some(flows) = schedule(&x) else { return };
            let name = || format!("disorderly bond {x}, rate {rate}");
            let Some(b) = build::<f64>(&x, rate, face, &named(&x)) else {
                c.violate(format!("{}: refused", name()));
                return;
            };
            c.case(true, hash((k, &x)));
            let w = move |d: i64| (hash((seed, d)) % 1000 + 1) as f64 / 1000.0;
            for s in at {
                let fut: Vec<&Flow> = flows.iter().filter(|f| f.due > s).collect();
                let want: f64 = fut.iter().map(|f| w(f.pay) * (f.coupons * rate * face / 2.0 + f.face * face)).sum();
                let size: f64 = fut.iter().map(|f| (f.coupons * rate * face).abs() + face).sum();
                let (v, _) = valued(&b, s, w);
                c.count("valuations of disorderly bonds", 1);
                c.check(matches!(v, Ok(v) if (v - want).abs() <= 1e-12 * size * (fut.len() + 2) as f64), || format!("{}: worth {v:?} on {}, the discounted payments due later sum to {want:e}", name(), t(s)));
            }
        });
    }
    // additivity over discount factors, with arbitrary factors per payment day
    for k in 0..c.n(5000, 100_000) {
        let x = orderly(&mut c.rng);
        let (rate, face) = (c.rng.real(-0.01, 0.1), 100.0);
        let settle = match c.rng.below(3) {
            0 => x.issue,
            1 => x.mat - 1,
            _ => c.rng.range(x.issue - 30, x.mat + 30),
        };
        let (s1, s2) = (c.rng.next(), c.rng.next());
        c.guard(|| format!("bond {x} valued on {} with arbitrary factors", t(settle)), |c| {
            let name = || format!("bond {x}, rate {rate}, valued on {} with arbitrary factors", t(settle));
            let Some(b) = build::<f64>(&x, rate, face, &named(&x)) else {
                c.violate(format!("{}: refused", name()));
                return;
            };
            c.case(true, hash((k, &x, settle)));
            let w1 = move |d: i64| (hash((s1, d)) % 1000 + 1) as f64 / 1000.0;
            let w2 = move |d: i64| (hash((s2, d)) % 1000 + 1) as f64 / 500.0;
            let (a, _) = valued(&b, settle, w1);
            let (z, _) = valued(&b, settle, w2);
            let (s, _) = valued(&b, settle, move |d| w1(d) + w2(d));
            let (Ok(a), Ok(z), Ok(s)) = (a, z, s) else {
                c.violate(format!("{}: refused", name()));
                return;
            };
            let flows = schedule(&x).expect("orderly");
            let fut = flows.iter().filter(|f| f.due > settle);
            let want: f64 = fut.map(|f| w1(f.pay) * (f.coupons * rate * face / 2.0 + f.face * face)).sum();
            let tol = 1e-11 * face * (flows.len() as f64);
            c.count("arbitrary factor sets", 3);
            c.check((a - want).abs() <= tol, || format!("{}: value {a:e}, the discounted payments sum to {want:e}", name()));
            c.check((a + z - s).abs() <= tol, || format!("{}: {a:e} + {z:e} is not {s:e}", name()));
        });
    }
    // a refusal of the curve at any one payment is the bond's answer
    for _ in 0..c.n(3000, 60_000) {
        let x = orderly(&mut c.rng);
        let flows = schedule(&x).expect("orderly");
        let i = c.rng.below(flows.len() as u64) as usize;
        let how = c.rng.below(5) as u8;
        c.guard(|| format!("bond {x}, discounting refused at payment {i}"), |c| {
            let name = || format!("bond {x}, discounting refused at payment {i} ({})", t(flows[i].pay));
            let Some(b) = build::<f64>(&x, 0.05, 100.0, &named(&x)) else {
                c.violate(format!("{}: bond refused", name()));
                return;
            };
            c.case(true, hash((&x, i, how)));
            let start = x.issue.min(x.first) - 3;
            let bad = flows[i].pay;
            let _ = take_log();
            set_yield(move |t| if how < 4 && t == (bad - start) as f64 { Err(how) } else { Ok(0.02 / 365.0) });
            let Ok(curve) = YieldCurve::<RecD, RecI<f64>>::new(qd(start), &[], &[]) else { return };
            if how == 4 {
                plan(|l| l.refuse_day = Some(bad));
            }
            let g = b.discounted_value(qd(start), &curve);
            let _ = take_log();
            if how == 4 {
                plan(|l| l.refuse_day = Some(bad));
            }
            let d = curve.discount_factor(qd(start), qd(bad));
            let _ = take_log();
            let (g, d) = (format!("{:?}", g.map_err(|e| format!("{e:?}"))), format!("{:?}", d.map_err(|e| format!("{e:?}"))));
            c.check(g == d, || format!("{}: the bond says {g}, the curve {d}", name()));
            c.count("injected discounting refusals", 1);
            // already paid: the refusing payment no longer matters
            if flows[i].due < x.mat {
                set_yield(|_| Err(1));
                let paid = b.discounted_value(qd(x.mat), &YieldCurve::<RecD, RecI<f64>>::new(qd(start), &[], &[]).expect("curve"));
                let _ = take_log();
                c.check(matches!(paid, Ok(v) if v == 0.0), || format!("{}: at maturity {paid:?}", name()));
            }
        });
    }
    c.sample(|| "on the due date the payment no longer counts, the day before it does".into());
    crate::meanwhile::settle(c);
}

/// Orderly dates, the last ones within two years of the last date.
pub fn range_end(r: &mut Rng) -> Terms {
    let first = maxn() - r.range(0, 1500);
    let first = if r.chance(0.3) { num(r.range(262_139, 262_142), r.range(1, 12), 1) } else { first };
    let k = r.range(0, 4);
    let pen = (0..=k).map(|k| plus(first, 6 * k)).take_while(|d| *d <= maxn()).last().unwrap_or(first).min(maxn());
    let issue = if r.chance(0.6) { plus(first, -6) } else { first - r.range(1, 300) };
    let mat = match r.below(4) {
        0 => maxn(),
        1 => plus(pen, 6),
        2 => plus(pen, 6) + r.range(1, 170),
        _ => pen + r.range(1, 170),
    };
    Terms { issue, first: first.min(maxn()), pen, mat: mat.min(maxn()) }
}

pub fn b04_case(c: &mut Ctx, k: u64) {
    let near = |r: &mut Rng, n: i64| (n + r.range(-400, 400)).clamp(minn(), maxn());
    let mut x = orderly(&mut c.rng);
    let shape = c.rng.below(9);
    match shape {
        0 => x = Terms { issue: any_day(&mut c.rng), first: any_day(&mut c.rng), pen: any_day(&mut c.rng), mat: any_day(&mut c.rng) },
        1 => {
            // no regular coupon
            x.pen = x.first - c.rng.range(1, 200);
            x.mat = x.pen + c.rng.range(1, 400);
        }
        2 => {
            x.pen = x.first - c.rng.range(1, 200);
            x.issue = plus(x.first, -6);
        }
        3 => {
            // end of the range
            x.mat = maxn() - c.rng.range(0, 500);
            x.pen = maxn() - c.rng.range(0, 900);
            x.first = near(&mut c.rng, maxn() - 900);
            x.issue = near(&mut c.rng, maxn() - 1000);
        }
        4 => {
            x.issue = minn() + c.rng.range(0, 500);
            x.first = minn() + c.rng.range(0, 800);
            x.pen = near(&mut c.rng, minn() + 1200);
            x.mat = near(&mut c.rng, minn() + 1200);
        }
        5 => std::mem::swap(&mut x.issue, &mut x.mat),
        6 => x.issue = x.first + c.rng.range(0, 300),
        7 => x.mat = x.pen - c.rng.range(0, 300),
        _ => {}
    }
    if x.pen - x.first > 365 * 3000 && k % 50 != 0 {
        x.pen = x.first + 365 * 200;
    }
    let ids = ["", "20 yr bond", "ünïcödé \u{1F4B0}\0\n", "id"];
    let id: String = if k % 7 == 0 { "x".repeat(1 + (k % 300) as usize) } else { ids[(k % 4) as usize].to_string() };
    let (rate, face) = (*c.rng.pick(&[0.0, 0.05, -0.01, 1e300, f64::NAN, f64::INFINITY]), *c.rng.pick(&[100.0, 0.0, 1e308, f64::NEG_INFINITY]));
    c.guard(|| format!("bond {x}, rate {rate}, face {face}"), |c| {
        let name = || format!("bond {x}, rate {rate}, face {face}");
        let edge = [x.issue, x.first, x.pen, x.mat].iter().any(|n| *n > maxn() - 1200 || *n < minn() + 1200);
        let g = build::<f64>(&x, rate, face, &id);
        let none = x.first > x.pen && x.issue != plus(x.first, -6);
        c.case(none || edge || shape < 8, hash((&x, rate.to_bits(), face.to_bits())));
        if let Some(b) = &g {
            c.check(b.bond_id() == id, || format!("{}: identifier {:?} became {:?}", name(), id, b.bond_id()));
        }
        if edge {
            c.count(if g.is_some() { "range-end bonds accepted" } else { "range-end bonds refused" }, 1);
            // dates that are certainly needed and not representable
            let low = plus(x.first, -6) < minn();
            c.check(!(low && g.is_some()), || format!("{}: accepted although the period before the first coupon is not representable", name()));
            // no regular coupon and yet a stub to prorate
            c.check(!(none && g.is_some()), || format!("{}: accepted although there is no regular coupon to prorate", name()));
            return;
        }
        c.count(if none { "unschedulable bonds" } else { "schedulable bonds" }, 1);
        c.check(g.is_some() != none, || format!("{}: {}", name(), if none { "accepted although there is no regular coupon to prorate" } else { "refused although it can be scheduled" }));
    });
}

pub fn b04(c: &mut Ctx) {
    c.rule = "bonds from arbitrary dates (orderly, unordered, no regular coupon, ends of the range) and arbitrary figures; non-trivial: not an ordinary orderly bond; keys are terms and figures".into();
    c.require(3000);
    for k in 0..c.n(60_000, 1_500_000) {
        b04_case(c, k);
    }
    // maturities and penultimate dates around the last date's neighbours
    for k in 0..c.n(6000, 100_000) {
        let x = range_end(&mut c.rng);
        c.guard(|| format!("bond {x}"), |c| {
            c.case(true, hash((k, &x)));
            let g = build::<f64>(&x, 0.01, 1.0, "edge");
            let needed = if x.mat == x.pen { None } else { Some(plus(x.pen, 6)) };
            let reg = x.issue == plus(x.first, -6);
            // the regular maturity is needed to tell whether the final period is regular
            if reg && needed.is_some_and(|n| n <= maxn() - 400) {
                c.check(g.is_some(), || format!("bond {x}: refused although it can be scheduled"));
            }
            c.count(if g.is_some() { "bonds ending with the range accepted" } else { "bonds ending with the range refused" }, 1);
        });
    }
    // the longest schedules the range allows
    for (first, pen) in [(minn() + 400, maxn() - 800), (num(1, 1, 31), num(262_000, 6, 1))] {
        let x = Terms { issue: plus(first, -6), first, pen, mat: pen + 100 };
        c.guard(|| format!("bond {x}"), |c| {
            c.enumerated(true);
            let g = build::<f64>(&x, 0.01, 1.0, "long");
            c.check(g.is_some(), || format!("bond {x}: refused although it can be scheduled"));
            c.count("schedules of half a million coupons", 1);
        });
    }
    c.sample(|| "first after penultimate with a stub -> none; identifier \"ünïcödé\" kept".into());
}
