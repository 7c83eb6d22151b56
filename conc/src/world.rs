//! The universe of questions: derived from the seed alone, with objects and
//! arguments that nearly coincide (same knots and other values, same dates and
//! other quotes, same year and other market), where a wrongly keyed memory shows.
use crate::civil::{add_months, from_num, num};
use crate::markets::{self, ask as ask_market, Market, A, Q};
use crate::rt::*;
use calendar::jointcalendar::JointCalendar;
use qlab_error::{InterpolationError, QLabResult};
use qlab_instrument::bond::Bond;
use qlab_math::interpolation::linear::Linear;
use qlab_math::interpolation::spline::catmull_rom::CatmullRom;
use qlab_math::interpolation::spline::hermite::Hermite;
use qlab_math::interpolation::spline::natural_cubic::NaturalCubic;
use qlab_math::interpolation::Interpolator;
use qlab_math::value::Value;
use qlab_termstructure::yield_curve::YieldCurve;
use qlab_time::date::Date;
use qlab_time::date_rolling::DateRolling;
use qlab_time::day_count::{act_360::Act360, act_365::Act365, thirty_360::Thirty360, DayCount};
use qlab_time::frequency::Frequency;
use qlab_time::period::{days::Days, months::Months, years::Years};
use std::collections::BTreeMap;
use std::fmt::{Debug, Display};
use std::sync::OnceLock;

#[derive(Clone, Copy, Debug)]
pub struct Query {
    pub obj: usize,
    pub k: u8,
    pub a: i64,
    pub b: i64,
}

pub trait Asker: Send + Sync {
    fn ask(&self, q: &Query) -> u64;
}
struct By<F>(F);
impl<F: Fn(&Query) -> u64 + Send + Sync> Asker for By<F> {
    fn ask(&self, q: &Query) -> u64 {
        match attempt(|| (self.0)(q)) {
            Ok(x) => x & !(1 << 63),
            // a failure is an answer; its words are free
            Err(_) => 0x0dd_ba11,
        }
    }
}
fn by(f: impl Fn(&Query) -> u64 + Send + Sync + 'static) -> Box<dyn Asker> {
    Box::new(By(f))
}

#[derive(Clone, Debug)]
enum Spec {
    Market(usize, &'static str),
    Joint(u8),
    User(u8),
    Dates,
    DayCounts,
    Interp { kind: u8, single: bool, group: u64, sibling: u64 },
    Curve { kind: u8, single: bool, group: u64, sibling: u64 },
    Bond { single: bool, group: u64, sibling: u64 },
}

pub struct World {
    seed: u64,
    specs: Vec<Spec>,
    slots: Vec<OnceLock<Box<dyn Asker>>>,
    queries: Vec<Query>,
}

trait F: Value + Into<f64> + Display + Debug + Send + Sync {
    fn of(x: f64) -> Self;
}
impl F for f64 {
    fn of(x: f64) -> f64 {
        x
    }
}
impl F for f32 {
    fn of(x: f64) -> f32 {
        x as f32
    }
}

fn bits<V: F, E: Debug + Display>(r: Result<V, E>) -> u64 {
    match r {
        Ok(x) => Into::<f64>::into(x).to_bits().rotate_left(7) ^ 1,
        Err(e) => hash(format!("{e:?} {e}")),
    }
}

/// Days on which calendars disagree (harness days).
fn disputed() -> Vec<i64> {
    let f = |p: Option<&str>| p.and_then(|x| x.trim().parse().ok()).expect("bad day list");
    include_str!("days.txt")
        .lines()
        .filter(|l| !l.is_empty())
        .map(|l| {
            let mut w = l.split('-');
            num(f(w.next()), f(w.next()), f(w.next()))
        })
        .collect()
}

/// A day of the shared pool: clustered so that years, months and days collide.
fn pool(r: &mut Rng) -> i64 {
    let y = *r.pick(&[1999, 2000, 2004, 2005, 2010, 2011, 2012, 2015, 2016, 2017, 2018, 2019, 2020, 2021, 2022, 2023, 2024, 2025, 2030, 2100, 2110, 2124]);
    match r.below(5) {
        0 => num(y, 2, 28) + r.range(0, 1),
        1 => num(y, 12, 24) + r.range(0, 9),
        2 => num(y, *r.pick(&[3, 4, 5]), r.range(1, 30)),
        _ => num(y, r.range(1, 12), r.range(1, 28)),
    }
}

enum I<V: Value> {
    L(Linear<V>),
    N(NaturalCubic<V>),
    C(CatmullRom<V>),
    H(Hermite<V>),
}
impl<V: F> I<V> {
    fn at(&self, x: V) -> Result<V, InterpolationError<V>> {
        match self {
            I::L(i) => i.try_value(x),
            I::N(i) => i.try_value(x),
            I::C(i) => i.try_value(x),
            I::H(i) => i.try_value(x),
        }
    }
}
/// Knots of a group; shared by its siblings.
fn knots(seed: u64, group: u64) -> Vec<f64> {
    let mut r = Rng::new(hash((seed, group, "knots")));
    let n = 4 + r.below(12) as usize;
    let mut x = (r.range(-8, 8)) as f64;
    (0..n)
        .map(|_| {
            x += r.range(1, 8) as f64 / 4.0;
            x
        })
        .collect()
}
fn interp<V: F>(seed: u64, kind: u8, group: u64, sibling: u64) -> Result<I<V>, InterpolationError<V>> {
    let x = knots(seed, group);
    let mut r = Rng::new(hash((seed, group, sibling / 2, "values")));
    let mut p: Vec<(V, V, V)> = x.iter().map(|x| (V::of(*x), V::of(r.range(-64, 64) as f64 / 8.0), V::of(r.range(-16, 16) as f64 / 8.0))).collect();
    if sibling % 2 == 1 {
        // the same but for one value
        let n = p.len();
        p[n / 2].1 += V::of(1.0);
    }
    let q: Vec<(V, V)> = p.iter().map(|t| (t.0, t.1)).collect();
    Ok(match kind {
        0 => I::L(Linear::default().try_fit(&q)?),
        1 => I::N(NaturalCubic::default().try_fit(&q)?),
        2 => I::C(CatmullRom::default().try_fit(&q)?),
        _ => I::H(Hermite::try_new(&p)?),
    })
}
fn ask_interp<V: F>(seed: u64, kind: u8, group: u64, sibling: u64) -> Box<dyn Asker> {
    let i = interp::<V>(seed, kind, group, sibling);
    let x = knots(seed, group);
    by(move |q| match &i {
        Err(e) => hash(format!("{e:?}")),
        Ok(i) => {
            let (lo, hi) = (x[0], x[x.len() - 1]);
            let at = match q.k {
                0 => x[q.a as usize % x.len()],
                1 => lo + (hi - lo) * (q.a as f64 / 1000.0),
                2 => lo - 1.0 - q.a as f64 / 1000.0,
                _ => hi + 1.0 + q.a as f64 / 1000.0,
            };
            bits(i.at(V::of(at)))
        }
    })
}

fn quotes(seed: u64, group: u64, sibling: u64) -> (i64, Vec<i64>, Vec<f64>) {
    let mut r = Rng::new(hash((seed, group, "curve")));
    let s = num(r.range(2000, 2030), r.range(1, 12), r.range(1, 28));
    let n = 5 + r.below(8) as usize;
    let mut d = s;
    let m: Vec<i64> = (0..n)
        .map(|_| {
            let x = d;
            d += r.range(40, 700);
            x
        })
        .collect();
    let mut r = Rng::new(hash((seed, group, sibling / 3, "quotes")));
    let mut y: Vec<f64> = (0..n).map(|_| r.range(1, 800) as f64 / 10000.0).collect();
    match sibling % 3 {
        0 => (s, m, y),
        1 => {
            y[n / 2] += 0.001;
            (s, m, y)
        }
        // settled a day earlier
        _ => (s - 1, m, y),
    }
}
fn curve<D: DayCount, J: Interpolator>(seed: u64, group: u64, sibling: u64) -> QLabResult<YieldCurve<D, J>>
where
    J::Value: F,
{
    let (s, m, y) = quotes(seed, group, sibling);
    let m: Vec<Date> = m.into_iter().map(qd).collect();
    let y: Vec<J::Value> = y.into_iter().map(F::of).collect();
    YieldCurve::new(qd(s), &m, &y)
}
fn ask_curve<D: DayCount + Send + Sync + 'static, J: Interpolator + Send + Sync + 'static>(seed: u64, group: u64, sibling: u64) -> Box<dyn Asker>
where
    J::Value: F,
{
    let c = curve::<D, J>(seed, group, sibling);
    // the group's own settlement: queries are the same for all siblings
    let (s, m, _) = quotes(seed, group, 0);
    by(move |q| match &c {
        Err(e) => hash(format!("{e:?}")),
        Ok(c) => {
            let pick = |k: i64| match k % 4 {
                0 => m[k as usize / 4 % m.len()],
                1 => s,
                2 => s - k % 3,
                _ => s + k * 37 % (m[m.len() - 1] - s + 30),
            };
            bits(c.discount_factor(qd(pick(q.a)), qd(pick(q.b))))
        }
    })
}
fn ask_bond<V: F>(seed: u64, group: u64, sibling: u64) -> Box<dyn Asker> {
    let (s, m, _) = quotes(seed, group, 0);
    let last = m[m.len() - 1];
    let first = add_months(from_num(s), 4).num();
    let pen = (0..).map(|k| add_months(from_num(first), 6 * k).num()).take_while(|d| *d < last - 200).last().unwrap_or(first);
    let stub = if sibling & 4 != 0 { 40 } else { 0 };
    let issue = add_months(from_num(first), -6).num() + stub;
    let rate = 0.03 + 0.01 * (sibling & 1) as f64;
    let face = 100.0 + 900.0 * (sibling >> 1 & 1) as f64;
    let b = Bond::<V>::new("BOND", qd(issue), qd(first), qd(pen), qd(add_months(from_num(pen), 6).num()), Frequency::SA, V::of(rate), V::of(face));
    let lin: Vec<_> = (0..3).map(|i| curve::<Act365, Linear<V>>(seed, group, i)).collect();
    let nat: Vec<_> = (0..3).map(|i| curve::<Thirty360, NaturalCubic<V>>(seed, group, i)).collect();
    by(move |q| match &b {
        None => 2,
        Some(b) if q.k == 9 => hash(b.bond_id()),
        Some(b) => {
            let at = qd(s + q.a * 29 % (last - s));
            let i = q.b as usize % 3;
            if q.k == 0 {
                lin[i].as_ref().map_or(3, |c| bits(b.discounted_value(at, c)))
            } else {
                nat[i].as_ref().map_or(4, |c| bits(b.discounted_value(at, c)))
            }
        }
    })
}

const ROLLS: [DateRolling; 5] = [DateRolling::Unadjusted, DateRolling::Following, DateRolling::ModifiedFollowing, DateRolling::Preceding, DateRolling::ModifiedPreceding];

fn opt(d: Option<Date>) -> u64 {
    d.map_or(1, |d| qn(d) as u64 * 2)
}
fn fraction<D: DayCount>(q: &Query) -> u64 {
    let (a, b) = (qd(q.a), qd(q.b));
    if q.k & 4 == 0 { bits(D::calculate_day_count_fraction::<f64>(a, b)) } else { bits(D::calculate_day_count_fraction::<f32>(a, b)) }
}
fn of(a: A) -> u64 {
    match a {
        A::B(x) => u64::from(x),
        A::D(d) => nn(d) as u64,
        A::N(n) => n as u64,
    }
}
fn question(q: &Query) -> Q {
    let d = nd(q.a);
    let flag = |k: i64| [None, Some(true), Some(false)][k as usize % 3];
    match q.k {
        0 => Q::Business(d),
        1 => Q::Holiday(d),
        2 => Q::Weekend(d),
        3 => Q::BridgeBusiness(qd(q.a)),
        4 => Q::BridgeHoliday(qd(q.a)),
        5 => Q::LastDay(d),
        6 => Q::EndOfMonth(d),
        7 => Q::Between(d, nd(q.b), flag(q.a), flag(q.b)),
        8 => Q::Easter(from_num(q.a).0 as i32),
        _ => Q::Orthodox(from_num(q.a).0 as i32),
    }
}
fn rolled<C: qlab_time::calendar::Calendar>(c: &C, q: &Query) -> u64 {
    let r = ROLLS[(q.b % 5) as usize];
    match q.k {
        20 => opt(qd(q.a).checked_roll(Days::new(q.b as u64), c, r)),
        21 => opt(qd(q.a).checked_roll(Months::new(q.b as u32), c, r)),
        _ => opt(qd(q.a).checked_roll(Years::new(q.b as i32 % 5), c, r)),
    }
}
struct Bridge(Market);
impl qlab_time::calendar::Calendar for Bridge {
    fn is_business_day(&self, d: Date) -> bool {
        (self.0.f)(Q::BridgeBusiness(d)).b()
    }
}

/// Calendars of users whose rules ask the library while they are asked.
#[derive(Debug)]
struct Tenth;
impl calendar::Calendar for Tenth {
    /// Closed on the first TARGET day from the 10th of the month, and at the weekend.
    fn is_business_day(&self, d: chrono::NaiveDate) -> bool {
        let t = from_num(nn(d));
        let (y, m) = (t.0, t.1);
        let tenth = qd(num(y, m, 10)).checked_roll(Days::new(0), &calendar::target::Target, DateRolling::Following);
        !self.is_weekend(d) && Some(Date::from(d)) != tenth
    }
}
#[derive(Debug)]
struct Fifth;
impl calendar::Calendar for Fifth {
    /// Closed on every fifth Swedish business day of the month and on the Japanese month end.
    fn is_business_day(&self, d: chrono::NaiveDate) -> bool {
        let t = from_num(nn(d));
        let (y, m) = (t.0, t.1);
        let n = calendar::sweden::Sweden.business_days_between(nd(num(y, m, 1)), d, None, Some(true));
        n % 5 != 0 && calendar::japan::Japan.end_of_month(d) != d
    }
}

fn joint<C: calendar::Calendar + Send + Sync + 'static>(c: C) -> Box<dyn Asker> {
    by(move |q| if q.k >= 20 { rolled(&c, q) } else { of(ask_market(&c, question(q))) })
}

impl World {
    pub fn new(seed: u64, scale: u64) -> World {
        let mut specs: Vec<Spec> = markets::all().iter().enumerate().map(|(i, m)| Spec::Market(i, m.key)).collect();
        specs.extend((0..5).map(Spec::Joint));
        specs.extend((0..3).map(Spec::User));
        specs.push(Spec::Dates);
        specs.push(Spec::DayCounts);
        for group in 0..3 * scale {
            for sibling in 0..4 {
                for kind in 0..4 {
                    for single in [false, true] {
                        specs.push(Spec::Interp { kind, single, group, sibling });
                    }
                }
            }
            for sibling in 0..6 {
                for kind in 0..6 {
                    specs.push(Spec::Curve { kind, single: (sibling + u64::from(kind)) % 3 == 0, group, sibling });
                }
            }
            for sibling in 0..8 {
                specs.push(Spec::Bond { single: false, group, sibling });
                if sibling < 3 {
                    specs.push(Spec::Bond { single: true, group, sibling });
                }
            }
        }
        let mut r = Rng::new(hash((seed, "queries")));
        let mut queries = vec![];
        // arguments shared by all markets
        let apart = disputed();
        let days: Vec<i64> = (0..40 * scale).map(|i| if i % 2 == 0 { pool(&mut r) } else { *r.pick(&apart) }).collect();
        // years the tables do not reach: most calendars fail there
        let beyond: Vec<i64> = [1900, 2200, 2345].map(|y| num(y, 4, 3 + r.range(0, 25))).to_vec();
        let mut xs: Vec<(u8, i64)> = (0..12).map(|i| (0, i)).collect();
        xs.extend((0..20).map(|_| (1, r.range(0, 1000))));
        xs.extend([(2, 0), (3, 0), (2, 400), (3, 400)]);
        let pairs: Vec<(i64, i64)> = (0..36).map(|_| (r.range(0, 60), r.range(0, 60))).collect();
        for (obj, s) in specs.iter().enumerate() {
            match s {
                Spec::Market(..) | Spec::Joint(_) | Spec::User(_) => {
                    for d in &beyond {
                        queries.push(Query { obj, k: 0, a: *d, b: 0 });
                        queries.push(Query { obj, k: 6 + r.below(4) as u8, a: *d, b: *d + 3 });
                    }
                    for (i, d) in days.iter().enumerate() {
                        for k in 0..7 {
                            if k == 0 || (i as u64 + u64::from(k)) % 3 == 0 {
                                queries.push(Query { obj, k, a: *d, b: 0 });
                            }
                        }
                        if i % 8 == 0 {
                            queries.push(Query { obj, k: 7, a: *d, b: d + r.range(-20, 45) });
                            queries.push(Query { obj, k: 8 + (i / 8 % 2) as u8, a: *d, b: 0 });
                            let k = 20 + r.below(3) as u8;
                            queries.push(Query { obj, k, a: *d, b: r.range(0, 40) });
                        }
                    }
                }
                Spec::Dates => {
                    for d in &days {
                        for k in 0..12 {
                            queries.push(Query { obj, k, a: *d, b: r.range(0, 500) });
                        }
                    }
                }
                Spec::DayCounts => {
                    for d in &days {
                        let e = if r.chance(0.5) { *r.pick(&days) } else { d + r.range(0, 800) };
                        for k in [0, 1, 2, 4, 5, 6] {
                            queries.push(Query { obj, k, a: *d, b: e });
                        }
                    }
                }
                Spec::Interp { .. } => queries.extend(xs.iter().map(|x| Query { obj, k: x.0, a: x.1, b: 0 })),
                Spec::Curve { .. } => queries.extend(pairs.iter().map(|p| Query { obj, k: 0, a: p.0, b: p.1 })),
                Spec::Bond { .. } => {
                    for (i, p) in pairs.iter().enumerate().take(24) {
                        queries.push(Query { obj, k: (i % 2) as u8, a: p.0 * 5, b: p.1 });
                    }
                    queries.push(Query { obj, k: 9, a: 0, b: 0 });
                }
            }
        }
        // a sample only, for interpreters
        if let Some(k) = std::env::var("CONC_SUB").ok().and_then(|s| s.parse::<u64>().ok()) {
            queries.retain(|_| r.below(k) == 0);
        }
        let slots = specs.iter().map(|_| OnceLock::new()).collect();
        World { seed, specs, slots, queries }
    }
    pub fn queries(&self) -> Vec<Query> {
        self.queries.clone()
    }
    pub fn objects(&self) -> usize {
        self.specs.len()
    }
    pub fn shared(&self, obj: usize) -> &dyn Asker {
        &**self.slots[obj].get_or_init(|| self.fresh(obj))
    }
    pub fn fresh(&self, obj: usize) -> Box<dyn Asker> {
        let seed = self.seed;
        match self.specs[obj] {
            Spec::Market(i, _) => {
                let m = Bridge(markets::one(i));
                by(move |q| if q.k >= 20 { rolled(&m, q) } else { of((m.0.f)(question(q))) })
            }
            Spec::Joint(j) => match j {
                0 => joint(JointCalendar::new(calendar::target::Target, calendar::unitedstates::UnitedStates { market: Some(calendar::unitedstates::UnitedStatesMarket::NYSE) })),
                1 => joint(JointCalendar::new(calendar::israel::Israel, calendar::japan::Japan)),
                2 => joint(JointCalendar::new(calendar::unitedkingdom::UnitedKingdom::default(), calendar::unitedkingdom::UnitedKingdom { market: Some(calendar::unitedkingdom::UnitedKingdomMarket::Metals) })),
                3 => joint(JointCalendar::new(JointCalendar::new(calendar::china::China, calendar::india::India), calendar::sweden::Sweden)),
                _ => joint(JointCalendar::<calendar::weekendsonly::WeekendsOnly, calendar::ukraine::Ukraine>::default()),
            },
            Spec::User(0) => joint(Tenth),
            Spec::User(1) => joint(JointCalendar::new(JointCalendar::new(Tenth, calendar::japan::Japan), Fifth)),
            Spec::User(_) => joint(Fifth),
            Spec::Dates => by(|q| {
                let d = qd(q.a);
                match q.k {
                    0 => hash((d.year(), d.month(), d.day())),
                    1 => d.serial_date() as u64,
                    2 => u64::from(d.leap_year()),
                    3 => opt(d.checked_add_years(Years::new(q.b as i32 - 250))),
                    4 => opt(d.checked_add_months(Months::new(q.b as u32))),
                    5 => opt(d.checked_sub_months(Months::new(q.b as u32))),
                    6 => opt(d.checked_add_days(Days::new(q.b as u64 * 7))),
                    7 => opt(d.checked_sub_days(Days::new(q.b as u64 * 7))),
                    8 => opt(d.succ_opt()) * 3 + opt(d.pred_opt()),
                    9 => opt(d.weekend_roll()),
                    10 => hash(d.to_string()),
                    _ => opt(Date::from_ymd(1900 + q.b as i32, d.month(), (q.b as u32 % 5) + 27)),
                }
            }),
            Spec::DayCounts => by(|q| match q.k & 3 {
                0 => fraction::<Act360>(q),
                1 => fraction::<Act365>(q),
                _ => fraction::<Thirty360>(q),
            }),
            Spec::Interp { kind, single, group, sibling } => {
                if single { ask_interp::<f32>(seed, kind, group, sibling) } else { ask_interp::<f64>(seed, kind, group, sibling) }
            }
            Spec::Curve { kind, single, group, sibling } => match (kind, single) {
                (0, false) => ask_curve::<Act365, Linear<f64>>(seed, group, sibling),
                (1, false) => ask_curve::<Act360, Linear<f64>>(seed, group, sibling),
                (2, false) => ask_curve::<Thirty360, Linear<f64>>(seed, group, sibling),
                (3, false) => ask_curve::<Act365, NaturalCubic<f64>>(seed, group, sibling),
                (4, false) => ask_curve::<Act360, CatmullRom<f64>>(seed, group, sibling),
                (_, false) => ask_curve::<Thirty360, NaturalCubic<f64>>(seed, group, sibling),
                (0 | 1, true) => ask_curve::<Act365, Linear<f32>>(seed, group, sibling),
                (2 | 3, true) => ask_curve::<Thirty360, Linear<f32>>(seed, group, sibling),
                (_, true) => ask_curve::<Act360, NaturalCubic<f32>>(seed, group, sibling),
            },
            Spec::Bond { single, group, sibling } => {
                if single { ask_bond::<f32>(seed, group, sibling) } else { ask_bond::<f64>(seed, group, sibling) }
            }
        }
    }
    pub fn kind(&self, obj: usize) -> &'static str {
        match self.specs[obj] {
            Spec::Market(..) => "calendars",
            Spec::Joint(_) => "joint calendars",
            Spec::User(_) => "users' calendars that ask the library",
            Spec::Dates => "dates",
            Spec::DayCounts => "day counts",
            Spec::Interp { .. } => "interpolants",
            Spec::Curve { .. } => "yield curves",
            Spec::Bond { .. } => "bonds",
        }
    }
    pub fn kinds(&self) -> BTreeMap<&'static str, u64> {
        let mut m = BTreeMap::new();
        for q in &self.queries {
            *m.entry(self.kind(q.obj)).or_insert(0) += 1;
        }
        m
    }
    pub fn describe(&self, q: &Query) -> String {
        let args = match self.specs[q.obj] {
            Spec::Market(..) | Spec::Joint(_) | Spec::User(_) if q.k < 20 => format!("{:?}", question(q)),
            Spec::Market(..) | Spec::Joint(_) | Spec::User(_) => format!("checked_roll of {} by {} {}, {:?}", nd(q.a), q.b, ["days", "months", "years (mod 5)"][q.k as usize - 20], ROLLS[(q.b % 5) as usize]),
            Spec::DayCounts => format!("convention {} from {} to {}", q.k, nd(q.a), nd(q.b)),
            Spec::Dates => format!("date operation {} on {} with {}", q.k, nd(q.a), q.b),
            _ => format!("query {} ({}, {})", q.k, q.a, q.b),
        };
        format!("{:?}: {args}", self.specs[q.obj])
    }
}
