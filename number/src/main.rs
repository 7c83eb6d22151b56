//! M09: the numeric components over a number type of the user's own.
#[path = "../../harness/src/civil.rs"]
#[allow(dead_code)]
mod civil;
#[path = "../../harness/src/dd.rs"]
#[allow(dead_code)]
mod dd;
mod jet;
#[path = "../../harness/src/rt.rs"]
#[allow(dead_code)]
mod rt;
#[path = "../../harness/src/run.rs"]
mod run;

use civil::{add_months, from_num, num, wd};
use dd::{dd, Dd};
use jet::{jet, Jet};
use num_traits::real::Real;
use num_traits::Zero;
use qlab_error::{InterpolationError, QLabResult};
use qlab_instrument::bond::Bond;
use qlab_math::interpolation::linear::Linear;
use qlab_math::interpolation::spline::catmull_rom::CatmullRom;
use qlab_math::interpolation::spline::hermite::Hermite;
use qlab_math::interpolation::spline::natural_cubic::NaturalCubic;
use qlab_math::interpolation::Interpolator;
use qlab_termstructure::yield_curve::YieldCurve;
use qlab_time::day_count::{act_360::Act360, act_365::Act365, thirty_360::Thirty360, DayCount};
use qlab_time::frequency::Frequency;
use rt::*;
use std::sync::atomic::Ordering::Relaxed;

/// A full-width number near `x`, with a derivative.
fn num_near(r: &mut Rng, lo: f64, hi: f64) -> Jet {
    let v = dd(r.real(lo, hi)) + dd(r.real(-1.0, 1.0) * 1e-18) + dd(r.real(-1.0, 1.0) * 1e-26);
    let d = dd(r.real(-1.0, 1.0)) + dd(r.real(-1.0, 1.0) * 1e-18);
    Jet { v, d }
}
fn show(x: Jet) -> String {
    format!("{:e}{:+e} (slope {:e}{:+e})", x.v.0, x.v.1, x.d.0, x.d.1)
}

/// Compares value and derivative, both to `tol` (absolute).
fn agree(c: &mut Ctx, got: Jet, want: Jet, tol: f64, what: impl Fn() -> String) {
    let e = (got.v - want.v).abs();
    let f = (got.d - want.d).abs();
    let digits = |e: f64| if e == 0.0 { 32 } else { (-e.log10()).clamp(0.0, 32.0) as u64 };
    let low = digits(e).min(digits(f));
    let k = "digits lost at worst (of 32)";
    c.gauge(k, 32 - low);
    c.check(e <= tol, || format!("{}: got {}, expected {} (off by {e:e}, allowance {tol:e})", what(), show(got), show(want)));
    c.check(!(e <= tol) || f <= tol, || format!("{}: derivative of {}, expected {} (off by {f:e}, allowance {tol:e})", what(), show(got), show(want)));
}

type Point = (Jet, Jet, Jet);

fn points(r: &mut Rng, n: usize) -> Vec<Point> {
    let mut x = num_near(r, -5.0, 5.0);
    (0..n)
        .map(|_| {
            let p = (x, num_near(r, -10.0, 10.0), num_near(r, -3.0, 3.0));
            x += num_near(r, 0.25, 2.0);
            p
        })
        .collect()
}

// ---- the formulas of the statements
fn two() -> Jet {
    jet(2.0)
}
fn cubic(y0: Jet, y1: Jet, s0: Jet, s1: Jet, t: Jet) -> Jet {
    let a = y1 - y0;
    // Newton's form of the Hermite cubic
    y0 + t * (s0 + t * ((a - s0) + (t - jet(1.0)) * (s1 + s0 - two() * a)))
}
fn linear(p: &[Point], i: usize, x: Jet) -> Jet {
    let w = (x - p[i].0) / (p[i + 1].0 - p[i].0);
    p[i].1 * (jet(1.0) - w) + p[i + 1].1 * w
}
fn hermite(p: &[Point], i: usize, x: Jet) -> Jet {
    let h = p[i + 1].0 - p[i].0;
    cubic(p[i].1, p[i + 1].1, p[i].2 * h, p[i + 1].2 * h, (x - p[i].0) / h)
}
fn catmull(p: &[Point], i: usize, x: Jet, quirk: bool) -> Jet {
    let h = p[i + 1].0 - p[i].0;
    let (y0, y1) = (p[i].1, p[i + 1].1);
    let before = |far: Jet| h / far * (y1 - p[i - 1].1);
    let s0 = match i {
        0 => y1 - y0,
        _ if quirk => before(h + (p[i + 1].0 - p[i - 1].0)),
        _ => before(p[i + 1].0 - p[i - 1].0),
    };
    let s1 = if i + 2 == p.len() { y1 - y0 } else { h / (p[i + 2].0 - p[i].0) * (p[i + 2].1 - y0) };
    cubic(y0, y1, s0, s1, (x - p[i].0) / h)
}
/// Slopes of the natural cubic spline (solved for first derivatives).
fn natural_slopes(p: &[Point]) -> Vec<Jet> {
    let n = p.len();
    let h = |i: usize| p[i + 1].0 - p[i].0;
    let g = |i: usize| (p[i + 1].1 - p[i].1) / h(i);
    let mut diag = vec![];
    let mut up = vec![];
    let mut lo = vec![];
    let mut rhs = vec![];
    for i in 0..n {
        if i == 0 {
            diag.push(two());
            up.push(jet(1.0));
            lo.push(Jet::zero());
            rhs.push(jet(3.0) * g(0));
        } else if i + 1 == n {
            diag.push(two());
            lo.push(jet(1.0));
            up.push(Jet::zero());
            rhs.push(jet(3.0) * g(n - 2));
        } else {
            let (a, b) = (h(i - 1).recip(), h(i).recip());
            lo.push(a);
            diag.push(two() * (a + b));
            up.push(b);
            rhs.push(jet(3.0) * (g(i - 1) * a + g(i) * b));
        }
    }
    sweep(&lo, &diag, &up, &rhs)
}
/// Elimination; lo[i] multiplies x[i-1].
fn sweep(lo: &[Jet], diag: &[Jet], up: &[Jet], rhs: &[Jet]) -> Vec<Jet> {
    let n = diag.len();
    let (mut d, mut r) = (diag.to_vec(), rhs.to_vec());
    for i in 1..n {
        let w = lo[i] / d[i - 1];
        d[i] = d[i] - w * up[i - 1];
        r[i] = r[i] - w * r[i - 1];
    }
    let mut x = vec![Jet::zero(); n];
    for i in (0..n).rev() {
        let rest = if i + 1 < n { up[i] * x[i + 1] } else { Jet::zero() };
        x[i] = (r[i] - rest) / d[i];
    }
    x
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Linear,
    Natural,
    Catmull,
    Hermite,
}
const KINDS: [Kind; 4] = [Kind::Linear, Kind::Natural, Kind::Catmull, Kind::Hermite];

type Asker = Box<dyn Fn(Jet) -> Result<Jet, InterpolationError<Jet>>>;
fn fitted(k: Kind, p: &[Point]) -> Result<Asker, InterpolationError<Jet>> {
    let q: Vec<(Jet, Jet)> = p.iter().map(|t| (t.0, t.1)).collect();
    Ok(match k {
        Kind::Linear => {
            let i = Linear::default().try_fit(&q)?;
            Box::new(move |x| i.try_value(x))
        }
        Kind::Natural => {
            let i = NaturalCubic::default().try_fit(&q)?;
            Box::new(move |x| i.try_value(x))
        }
        Kind::Catmull => {
            let i = CatmullRom::default().try_fit(&q)?;
            Box::new(move |x| i.try_value(x))
        }
        Kind::Hermite => {
            let i = Hermite::try_new(p)?;
            Box::new(move |x| i.try_value(x))
        }
    })
}
/// Expected value; the second form is the known Catmull-Rom finding's.
fn expected(k: Kind, p: &[Point], slopes: &[Jet], i: usize, x: Jet) -> (Jet, Option<Jet>) {
    match k {
        Kind::Linear => (linear(p, i, x), None),
        Kind::Hermite => (hermite(p, i, x), None),
        Kind::Natural => {
            let q: Vec<Point> = p.iter().zip(slopes).map(|(t, s)| (t.0, t.1, *s)).collect();
            (hermite(&q, i, x), None)
        }
        Kind::Catmull => (catmull(p, i, x, false), (i + 2 == p.len()).then(|| catmull(p, i, x, true))),
    }
}

fn text(p: &[Point]) -> String {
    p.iter().take(5).map(|t| format!("[{} -> {}]", show(t.0), show(t.1))).collect::<Vec<_>>().join(" ")
}
fn key(p: &[Point]) -> u64 {
    hash(p.iter().map(|t| (t.0.v.0.to_bits(), t.1.v.0.to_bits())).collect::<Vec<_>>())
}

fn interpolation(c: &mut Ctx, k: Kind) {
    let least = if k == Kind::Linear { 2 } else { 3 };
    let n = match c.rng.below(4) {
        0 => least,
        1 => least + 1,
        2 => least + c.rng.below(6) as usize,
        _ => least + c.rng.below(30) as usize,
    };
    let p = points(&mut c.rng, n);
    let ws: Vec<Jet> = (0..n - 1).map(|_| num_near(&mut c.rng, 0.02, 0.98)).collect();
    let name = || format!("{k:?} through {n} points {}", text(&p));
    c.guard(name, |c| {
        c.case(true, key(&p) ^ k as u64);
        let f = match fitted(k, &p) {
            Ok(f) => f,
            Err(e) => return c.violate(format!("{}: refused: {e:?}", name())),
        };
        let slopes = if k == Kind::Natural { natural_slopes(&p) } else { vec![] };
        for (i, w) in ws.iter().enumerate() {
            let x = p[i].0 + *w * (p[i + 1].0 - p[i].0);
            match f(x) {
                Ok(y) => {
                    let (want, quirk) = expected(k, &p, &slopes, i, x);
                    let want = match quirk {
                        Some(q) if (y.v - q.v).abs() < 1e-6 => q,
                        _ => want,
                    };
                    agree(c, y, want, 1e-22, || format!("{}, at {}", name(), show(x)));
                }
                Err(e) => c.violate(format!("{}: {} inside the data refused: {e:?}", name(), show(x))),
            }
            c.count(&format!("{k:?}: values compared"), 1);
        }
        // its own ordering decides, in digits no built-in type has
        let tiny = Jet { v: dd(1e-26), d: dd(0.0) };
        let (lo, hi) = (p[0].0, p[n - 1].0);
        c.check(f(lo - tiny).is_err(), || format!("{}: below the first knot by 1e-26, answered", name()));
        c.check(f(hi + tiny).is_err(), || format!("{}: above the last knot by 1e-26, answered", name()));
        for (x, y, side) in [(lo + tiny, p[0].1, "first"), (hi - tiny, p[n - 1].1, "last"), (lo, p[0].1, "first"), (hi, p[n - 1].1, "last")] {
            match f(x) {
                Ok(v) => c.check((v.v - y.v).abs() < 1e-22, || format!("{}: at the {side} knot {} instead of {}", name(), show(v), show(y))),
                Err(e) => c.violate(format!("{}: at or 1e-26 inside the {side} knot refused: {e:?}", name())),
            }
        }
        c.count("ends probed 1e-26 apart", 6);
    });
    // knots a built-in type cannot tell apart, with a line through them
    let i = c.rng.below(n as u64 - 1) as usize;
    let gap = c.rng.real(0.5, 2.0) * 1e-20;
    c.guard(name, |c| {
        let mut q = p.clone();
        q[i + 1].0.v = q[i].0.v + dd(gap);
        if i + 2 < n {
            match fitted(k, &q) {
                Ok(_) => {}
                Err(e) => c.violate(format!("{}: knots {i} and {} moved {gap:e} apart, refused: {e:?}", name(), i + 1)),
            }
        }
        q[i + 1].0.v = q[i].0.v - dd(gap);
        c.check(fitted(k, &q).is_err(), || format!("{}: knots {i} and {} moved into wrong order by {gap:e}, accepted", name(), i + 1));
        q[i + 1].0.v = q[i].0.v;
        c.check(fitted(k, &q).is_err(), || format!("{}: knots {i} and {} made equal, accepted", name(), i + 1));
        c.count("orders decided 1e-20 apart", 3);
    });
}

fn days30(a: i64, b: i64) -> i64 {
    let (a, b) = (from_num(a), from_num(b));
    360 * (b.0 - a.0) + 30 * (b.1 - a.1) + b.2.min(30) - a.2.min(30)
}
fn whole(n: i64) -> Jet {
    jet(n as f64)
}
#[derive(Clone, Copy, Debug)]
enum Basis {
    A365,
    A360,
    T360,
}
const BASES: [Basis; 3] = [Basis::A365, Basis::A360, Basis::T360];
impl Basis {
    fn time(self, a: i64, b: i64) -> Jet {
        match self {
            Basis::A365 => whole(b - a) / jet(365.0),
            Basis::A360 => whole(b - a) / jet(360.0),
            Basis::T360 => whole(days30(a, b)) / jet(360.0),
        }
    }
    fn asked(self, a: i64, b: i64) -> QLabResult<Jet> {
        match self {
            Basis::A365 => Act365::calculate_day_count_fraction(qd(a), qd(b)),
            Basis::A360 => Act360::calculate_day_count_fraction(qd(a), qd(b)),
            Basis::T360 => Thirty360::calculate_day_count_fraction(qd(a), qd(b)),
        }
    }
}
fn day(n: i64) -> String {
    let d = from_num(n);
    format!("{}-{:02}-{:02}", d.0, d.1, d.2)
}

fn day_counts(c: &mut Ctx) {
    let a = c.rng.range(num(1, 1, 1), num(9000, 1, 1));
    let b = a + { let most = *c.rng.pick(&[3, 800, 20_000, 300_000]); c.rng.below(most) as i64 };
    c.guard(|| format!("day counts from {} to {}", day(a), day(b)), |c| {
        c.case(a != b, hash((a, b)));
        for k in BASES {
            match k.asked(a, b) {
                Ok(x) => agree(c, x, k.time(a, b), 1e-24, || format!("{k:?} from {} to {}", day(a), day(b))),
                Err(e) => c.violate(format!("{k:?} from {} to {} refused: {e}", day(a), day(b))),
            }
            c.count("day counts compared", 1);
        }
    });
}

// ---- curves and bonds
struct Market {
    settle: i64,
    ends: Vec<i64>,
    yields: Vec<Jet>,
    basis: Basis,
    kind: Kind,
}
impl Market {
    fn random(r: &mut Rng) -> Market {
        let settle = r.range(num(1990, 1, 1), num(2060, 1, 1));
        let mut d = settle;
        let n = 4 + r.below(10) as usize;
        let mut ends = vec![];
        for _ in 0..n {
            ends.push(d);
            d += r.range(100, 700);
        }
        let yields = ends.iter().map(|_| num_near(r, 0.0, 0.08)).collect();
        Market { settle, ends, yields, basis: *r.pick(&BASES), kind: *r.pick(&[Kind::Linear, Kind::Natural, Kind::Catmull]) }
    }
    fn points(&self) -> Vec<Point> {
        self.ends.iter().zip(&self.yields).map(|(d, y)| (self.basis.time(self.settle, *d), *y, Jet::zero())).collect()
    }
    fn text(&self) -> String {
        format!(
            "{:?} curve, {:?}, settled {}, {} quotes from {} = {} to {} = {}",
            self.kind,
            self.basis,
            day(self.settle),
            self.ends.len(),
            day(self.ends[0]),
            show(self.yields[0]),
            day(*self.ends.last().unwrap()),
            show(*self.yields.last().unwrap())
        )
    }
}
/// Yield times time at a day, in the statement's terms.
struct Model {
    m: Market,
    p: Vec<Point>,
    slopes: Vec<Jet>,
}
impl Model {
    fn new(m: Market) -> Model {
        let p = m.points();
        let slopes = if m.kind == Kind::Natural { natural_slopes(&p) } else { vec![] };
        Model { m, p, slopes }
    }
    fn yt(&self, d: i64, quirk: bool) -> Jet {
        let t = self.m.basis.time(self.m.settle, d);
        // at a knot, the interval on its left
        let i = self.p.partition_point(|q| q.0 < t).saturating_sub(1).min(self.p.len() - 2);
        let (y, q) = expected(self.m.kind, &self.p, &self.slopes, i, t);
        t * if quirk { q.unwrap_or(y) } else { y }
    }
    fn factor(&self, a: i64, b: i64, quirk: bool) -> Jet {
        (self.yt(a, quirk) - self.yt(b, quirk)).exp()
    }
}

trait Ask {
    fn factor(&self, a: i64, b: i64) -> QLabResult<Jet>;
    fn value(&self, b: &Bond<Jet>, s: i64) -> QLabResult<Jet>;
}
impl<D: DayCount, I: Interpolator<Value = Jet>> Ask for YieldCurve<D, I> {
    fn factor(&self, a: i64, b: i64) -> QLabResult<Jet> {
        self.discount_factor(qd(a), qd(b))
    }
    fn value(&self, b: &Bond<Jet>, s: i64) -> QLabResult<Jet> {
        b.discounted_value(qd(s), self)
    }
}
fn curve(m: &Market) -> QLabResult<Box<dyn Ask>> {
    fn on<D: DayCount + 'static, I: Interpolator<Value = Jet> + 'static>(m: &Market) -> QLabResult<Box<dyn Ask>> {
        let ends: Vec<_> = m.ends.iter().map(|d| qd(*d)).collect();
        Ok(Box::new(YieldCurve::<D, I>::new(qd(m.settle), &ends, &m.yields)?))
    }
    fn by<D: DayCount + 'static>(m: &Market) -> QLabResult<Box<dyn Ask>> {
        match m.kind {
            Kind::Linear => on::<D, Linear<Jet>>(m),
            Kind::Natural => on::<D, NaturalCubic<Jet>>(m),
            _ => on::<D, CatmullRom<Jet>>(m),
        }
    }
    match m.basis {
        Basis::A365 => by::<Act365>(m),
        Basis::A360 => by::<Act360>(m),
        Basis::T360 => by::<Thirty360>(m),
    }
}

fn either(c: &mut Ctx, got: Jet, right: Jet, quirk: Jet, tol: f64, what: impl Fn() -> String) {
    // the library is one or the other throughout; judge against the nearer
    let far = |w: Jet| (got.v - w.v).abs() + (got.d - w.d).abs();
    let want = if far(quirk) < far(right) { quirk } else { right };
    agree(c, got, want, tol, what);
}

fn curves(c: &mut Ctx) {
    let m = Model::new(Market::random(&mut c.rng));
    let (lo, hi) = (m.m.settle, *m.m.ends.last().unwrap());
    let pairs: Vec<(i64, i64)> = (0..12)
        .map(|i| {
            let a = if i % 3 == 0 { lo } else { c.rng.range(lo, hi) };
            (a, c.rng.range(a, hi))
        })
        .collect();
    // bonds paid within the curve
    let first = lo + c.rng.range(1, 300);
    let months = |n: i64, k: i64| add_months(from_num(n), k).num();
    let mut k = 0;
    while months(first, 6 * (k + 3)) + 5 < hi {
        k += 1;
    }
    let k = c.rng.below(k as u64 + 1) as i64;
    let pen = months(first, 6 * k);
    let reg = months(pen, 6);
    let mat = match c.rng.below(3) {
        0 => reg,
        1 => c.rng.range(pen + 1, reg),
        _ => c.rng.range(reg, months(reg, 6)),
    };
    let prior = months(first, -6);
    let issue = match c.rng.below(3) {
        0 => prior,
        1 => c.rng.range(prior, first - 1),
        _ => c.rng.range(months(prior, -6), prior),
    };
    let rate = num_near(&mut c.rng, 0.0, 0.12);
    let face = num_near(&mut c.rng, 50.0, 150.0);
    let settle = c.rng.range(lo, mat - 1);
    let name = || m.m.text();
    c.guard(name, |c| {
        c.case(true, key(&m.p));
        let y = match curve(&m.m) {
            Ok(y) => y,
            Err(e) => return c.violate(format!("{}: refused: {e}", name())),
        };
        for (a, b) in pairs {
            let what = || format!("{}: factor from {} to {}", name(), day(a), day(b));
            match y.factor(a, b) {
                Ok(v) => either(c, v, m.factor(a, b, false), m.factor(a, b, true), 1e-22, what),
                Err(e) => c.violate(format!("{}: refused: {e}", what())),
            }
            c.count("discount factors compared", 1);
        }
        if mat > hi {
            return;
        }
        let text = || {
            format!(
                "{}: bond issued {}, coupons {} to {}, due {}, rate {}, face {}, valued on {}",
                name(),
                day(issue),
                day(first),
                day(pen),
                day(mat),
                show(rate),
                show(face),
                day(settle)
            )
        };
        let Some(b) = Bond::new("x", qd(issue), qd(first), qd(pen), qd(mat), Frequency::SA, rate, face) else {
            return c.violate(format!("{}: refused", text()));
        };
        let regular = rate * face / two();
        let share = |n: i64, d: i64| whole(n) / whole(d);
        let mut flows = vec![];
        for j in 0..=k {
            let mut amount = regular;
            if j == 0 && issue > prior {
                amount = regular * share(first - issue, first - prior);
            } else if j == 0 {
                amount = regular + regular * share(prior - issue, prior - months(prior, -6));
            }
            let due = months(first, 6 * j);
            flows.push((due, if wd(due) < 5 { due } else { due + 7 - wd(due) }, amount));
        }
        let part = if mat <= reg { share(mat - pen, reg - pen) } else { jet(1.0) + share(mat - reg, months(reg, 6) - reg) };
        flows.push((mat, mat, face + regular * part));
        let sum = |quirk: bool| {
            flows.iter().filter(|f| f.0 > settle).fold(Jet::zero(), |s, f| s + f.2 * m.factor(settle, f.1, quirk))
        };
        if flows.iter().any(|f| f.1 > hi) {
            return;
        }
        match y.value(&b, settle) {
            Ok(v) => either(c, v, sum(false), sum(true), 1e-20, text),
            Err(e) => c.violate(format!("{}: refused: {e}", text())),
        }
        c.count("bonds valued", 1);
    });
}

fn m09(c: &mut Ctx) {
    c.rule = "distinct data sets (knots, ordinates, date pairs, markets) of a 31-digit differentiating number type".into();
    c.require(200);
    // the number type itself: exp and ln undo each other, to its own precision
    for i in 0..200 {
        let x = num_near(&mut c.rng, -20.0, 3.0);
        let back = x.exp().ln();
        assert!((back.v - x.v).abs() < 1e-27 && (back.d - x.d).abs() < 1e-27, "number type: {i} {} {}", show(x), show(back));
    }
    let e = jet(1.0).exp().v - (Dd(std::f64::consts::E, 1.445_646_891_729_250_2e-16));
    assert!(e.abs() < 1e-30, "number type: e");
    for _ in 0..c.n(3_000, 150_000) {
        for k in KINDS {
            interpolation(c, k);
        }
        day_counts(c);
        curves(c);
    }
    let (narrowed, ops) = (jet::NARROWED.load(Relaxed), jet::OPS.load(Relaxed));
    c.count("numbers read back into a built-in type", narrowed);
    c.count("arithmetic operations", ops);
    c.sample(|| "values and derivatives of interpolants, day counts, discount factors and bond values".into());
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::process::exit(run::dispatch(&[("M09", m09)], &a).unwrap_or_else(|| {
        eprintln!("usage: number run|worker M09");
        2
    }));
}
