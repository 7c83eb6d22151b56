//! M01–M08: interpolation, judged against double-double references with
//! error bounds derived for the data at hand.
use crate::dd::{dd, Dd};
use crate::rt::*;
use qlab_error::InterpolationError;
use qlab_math::interpolation::linear::Linear;
use qlab_math::interpolation::spline::catmull_rom::CatmullRom;
use qlab_math::interpolation::spline::hermite::Hermite;
use qlab_math::interpolation::spline::natural_cubic::NaturalCubic;
use qlab_math::interpolation::Interpolator;
use qlab_math::value::Value;

pub trait Fl: Value + Into<f64> + std::fmt::Display {
    const EPS: f64;
    const NAME: &'static str;
    fn of(x: f64) -> Self;
    fn up(self) -> Self;
    fn down(self) -> Self;
    fn bits(self) -> u64;
}
impl Fl for f64 {
    const EPS: f64 = f64::EPSILON;
    const NAME: &'static str = "double";
    fn of(x: f64) -> Self {
        x
    }
    fn up(self) -> Self {
        self.next_up()
    }
    fn down(self) -> Self {
        self.next_down()
    }
    fn bits(self) -> u64 {
        self.to_bits()
    }
}
impl Fl for f32 {
    const EPS: f64 = f32::EPSILON as f64;
    const NAME: &'static str = "single";
    fn of(x: f64) -> Self {
        x as f32
    }
    fn up(self) -> Self {
        self.next_up()
    }
    fn down(self) -> Self {
        self.next_down()
    }
    fn bits(self) -> u64 {
        u64::from(self.to_bits())
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Kind {
    Linear,
    Natural,
    Catmull,
    Hermite,
}
pub const KINDS: [Kind; 4] = [Kind::Linear, Kind::Natural, Kind::Catmull, Kind::Hermite];
impl Kind {
    pub fn min(self) -> usize {
        if self == Kind::Linear { 1 } else { 3 }
    }
}

pub enum Fitted<V: Value> {
    L(Linear<V>),
    N(NaturalCubic<V>),
    C(CatmullRom<V>),
    H(Hermite<V>),
}
impl<V: Fl> Fitted<V> {
    pub fn at(&self, x: V) -> Result<V, InterpolationError<V>> {
        match self {
            Fitted::L(i) => i.try_value(x),
            Fitted::N(i) => i.try_value(x),
            Fitted::C(i) => i.try_value(x),
            Fitted::H(i) => i.try_value(x),
        }
    }
    /// Fits this very object again (Hermite objects cannot be refitted).
    pub fn refit(self, p: &[(V, V, V)]) -> Result<Fitted<V>, InterpolationError<V>> {
        let q: Vec<(V, V)> = p.iter().map(|t| (t.0, t.1)).collect();
        Ok(match self {
            Fitted::L(i) => Fitted::L(i.try_fit(&q)?),
            Fitted::N(i) => Fitted::N(i.try_fit(&q)?),
            Fitted::C(i) => Fitted::C(i.try_fit(&q)?),
            Fitted::H(_) => Fitted::H(Hermite::try_new(p)?),
        })
    }
}
pub fn unfitted<V: Fl>(k: Kind, how: bool) -> Option<Fitted<V>> {
    match k {
        Kind::Linear => Some(Fitted::L(if how { Linear::new() } else { Linear::default() })),
        Kind::Natural => Some(Fitted::N(NaturalCubic::default())),
        Kind::Catmull => Some(Fitted::C(CatmullRom::default())),
        Kind::Hermite => None,
    }
}
pub fn fit<V: Fl>(k: Kind, p: &[(V, V, V)]) -> Result<Fitted<V>, InterpolationError<V>> {
    match unfitted(k, true) {
        Some(i) => i.refit(p),
        None => Ok(Fitted::H(Hermite::try_new(p)?)),
    }
}

pub type Pts = Vec<(f64, f64, f64)>;
pub fn cast<V: Fl>(p: &Pts) -> Vec<(V, V, V)> {
    p.iter().map(|t| (V::of(t.0), V::of(t.1), V::of(t.2))).collect()
}

/// Exact-to-31-digits reference curve with an error allowance.
pub struct Ref<'a> {
    k: Kind,
    p: &'a Pts,
    m2: Vec<Dd>,  // natural: second derivatives
    err: Vec<f64>, // natural: allowance for them, in units of epsilon
}

fn thomas(lower: &[Dd], diag: &[Dd], upper: &[Dd], rhs: &[Dd]) -> Vec<Dd> {
    let n = diag.len();
    let mut d = diag.to_vec();
    let mut r = rhs.to_vec();
    for i in 1..n {
        let w = lower[i - 1] / d[i - 1];
        d[i] = d[i] - w * upper[i - 1];
        r[i] = r[i] - w * r[i - 1];
    }
    let mut x = vec![dd(0.0); n];
    for i in (0..n).rev() {
        let t = if i + 1 < n { r[i] - upper[i] * x[i + 1] } else { r[i] };
        x[i] = t / d[i];
    }
    x
}

fn cubic(y0: Dd, y1: Dd, s0h: Dd, s1h: Dd, t: Dd) -> Dd {
    // Hermite basis
    let (t2, one) = (t * t, dd(1.0));
    let t3 = t2 * t;
    let two = dd(2.0);
    let three = dd(3.0);
    let h01 = three * t2 - two * t3;
    y0 * (one - h01) + y1 * h01 + s0h * (t3 - two * t2 + t) + s1h * (t3 - t2)
}

impl<'a> Ref<'a> {
    pub fn new(k: Kind, p: &'a Pts) -> Self {
        let (mut m2, mut err) = (vec![], vec![]);
        if k == Kind::Natural {
            let n = p.len();
            let h: Vec<Dd> = (0..n - 1).map(|i| dd(p[i + 1].0) - dd(p[i].0)).collect();
            let mut diag = vec![];
            let mut off = vec![];
            let mut rhs = vec![];
            let mut size = vec![];
            for i in 1..n - 1 {
                diag.push((h[i - 1] + h[i]) / dd(3.0));
                if i + 2 < n {
                    off.push(h[i] / dd(6.0));
                }
                let y = |j: usize| dd(p[j].1);
                rhs.push((y(i + 1) - y(i)) / h[i] - (y(i) - y(i - 1)) / h[i - 1]);
                let (a, b) = (h[i - 1].f(), h[i].f());
                size.push(p[i - 1].1.abs() / a + p[i].1.abs() * (1.0 / a + 1.0 / b) + p[i + 1].1.abs() / b);
            }
            let inner = thomas(&off, &diag, &off, &rhs);
            let k = inner.len();
            let neg: Vec<Dd> = off.iter().map(|o| -*o).collect();
            let allow: Vec<Dd> = (0..k)
                .map(|i| {
                    let mut am = diag[i].f() * inner[i].abs();
                    if i > 0 {
                        am += off[i - 1].f() * inner[i - 1].abs();
                    }
                    if i + 1 < k {
                        am += off[i].f() * inner[i + 1].abs();
                    }
                    dd(8.0 * size[i] + 16.0 * am)
                })
                .collect();
            let e = thomas(&neg, &diag, &neg, &allow);
            m2.push(dd(0.0));
            m2.extend(inner);
            m2.push(dd(0.0));
            err.push(0.0);
            err.extend(e.iter().map(|x| x.f()));
            err.push(0.0);
        }
        Ref { k, p, m2, err }
    }
    /// Index of the interval used for x (a knot belongs to either side).
    pub fn interval(&self, x: f64) -> usize {
        let n = self.p.len();
        self.p.partition_point(|t| t.0 <= x).saturating_sub(1).min(n.saturating_sub(2))
    }
    pub fn at(&self, x: f64, eps: f64) -> (Dd, f64) {
        let i = self.interval(x);
        let (v, tol) = self.on(i, x, eps);
        // far below the data, underflow of intermediate results
        let tol = tol + if eps > 1e-10 { 1e-30 } else { 1e-280 };
        // a knot may be evaluated from the interval on its other side
        if i > 0 && x == self.p[i].0 {
            return (v, tol.max(self.on(i - 1, x, eps).1));
        }
        (v, tol)
    }
    fn on(&self, i: usize, x: f64, eps: f64) -> (Dd, f64) {
        let p = self.p;
        if p.len() == 1 {
            return (dd(p[0].1), 4.0 * eps * p[0].1.abs());
        }
        let (a, b) = (p[i], p[i + 1]);
        let h = dd(b.0) - dd(a.0);
        let t = (dd(x) - dd(a.0)) / h;
        let (y0, y1) = (dd(a.1), dd(b.1));
        match self.k {
            Kind::Linear => (y0 + (y1 - y0) * t, 8.0 * eps * (a.1.abs() + b.1.abs())),
            Kind::Natural => {
                let u = dd(1.0) - t;
                let h2 = h * h / dd(6.0);
                let v = y0 * u + y1 * t + h2 * ((u * u * u - u) * self.m2[i] + (t * t * t - t) * self.m2[i + 1]);
                let tol = eps * (16.0 * (a.1.abs() + b.1.abs()) + h2.f() * (16.0 * (self.m2[i].abs() + self.m2[i + 1].abs()) + self.err[i] + self.err[i + 1]));
                (v, tol)
            }
            Kind::Hermite => {
                let (s0, s1) = (dd(a.2) * h, dd(b.2) * h);
                (cubic(y0, y1, s0, s1, t), 48.0 * eps * (a.1.abs() + b.1.abs() + s0.abs() + s1.abs()))
            }
            Kind::Catmull => {
                let s0 = if i == 0 { y1 - y0 } else { (y1 - dd(p[i - 1].1)) * h / (dd(b.0) - dd(p[i - 1].0)) };
                let s1 = if i + 2 == p.len() { y1 - y0 } else { (dd(p[i + 2].1) - y0) * h / (dd(p[i + 2].0) - dd(a.0)) };
                let mut size = a.1.abs() + b.1.abs();
                if i > 0 {
                    size += p[i - 1].1.abs();
                }
                if i + 2 < p.len() {
                    size += p[i + 2].1.abs();
                }
                (cubic(y0, y1, s0, s1, t), 48.0 * eps * size)
            }
        }
    }
    /// Catmull-Rom finding: the value with the wrong weight in the last interval.
    pub fn quirk(&self, x: f64, eps: f64) -> Option<(Dd, f64)> {
        let p = self.p;
        let n = p.len();
        if self.k != Kind::Catmull || self.interval(x) + 2 != n {
            return None;
        }
        let (q, a, b) = (p[n - 3], p[n - 2], p[n - 1]);
        let h = dd(b.0) - dd(a.0);
        let t = (dd(x) - dd(a.0)) / h;
        let s0 = (dd(b.1) - dd(q.1)) * h / (h + (dd(b.0) - dd(q.0)));
        let (_, tol) = self.on(n - 2, x, eps);
        Some((cubic(dd(a.1), dd(b.1), s0, dd(b.1) - dd(a.1), t), tol))
    }
}

/// Does `got` agree with the reference at x?  Known-finding matches are routed.
fn judge<V: Fl>(c: &mut Ctx, r: &Ref, name: &dyn Fn() -> String, x: f64, got: &Result<V, InterpolationError<V>>, what: &str) {
    let (want, tol) = r.at(x, V::EPS);
    match got {
        Ok(v) => {
            let v: f64 = (*v).into();
            let d = (dd(v) - want).abs();
            if d <= tol {
                // the listed finding's deviation takes any size
                if tol > 0.0 && r.quirk(x, V::EPS).is_none() {
                    c.gauge("largest error in permille of the allowance", (1000.0 * d / tol) as u64);
                }
            } else {
                let detail = || format!("{}: {what} at {x:e}: {v:e}, expected {:e} (off by {d:e}, allowance {tol:e})", name(), want.f());
                match r.quirk(x, V::EPS) {
                    Some((q, tol)) if (dd(v) - q).abs() <= tol => c.known_or_violate("catmull-rom-last-interval", detail),
                    _ => c.violate(detail()),
                }
            }
        }
        Err(e) => c.violate(format!("{}: {what} at {x:e} inside the domain refused: {e}", name())),
    }
}

/// Strictly ascending knots, exactly representable in V.
pub fn knots<V: Fl>(r: &mut Rng, n: usize) -> Vec<f64> {
    let single = V::EPS > 1e-10;
    let (sc, ratio) = if single { (16, 9.0) } else { (120, 20.0) };
    let scale = 2f64.powi(r.range(-sc, sc) as i32);
    let style = match r.below(6) {
        // steps that do not drown in so long a list
        _ if single && n > 1000 => *r.pick(&[0, 1, 5]),
        any => any,
    };
    loop {
        let mut x = match r.below(4) {
            0 => 0.0,
            1 => -scale * r.unit() * n as f64,
            _ => scale * r.real(-1.0, 3.0),
        };
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            v.push(Into::<f64>::into(V::of(x)));
            x += match style {
                0 => scale,
                1 => scale * (0.05 + r.unit()),
                2 => scale * 2f64.powf(-ratio * r.unit()),
                3 => if i % 2 == 0 { scale } else { scale / 2f64.powf(ratio) },
                4 => scale * 1.3f64.powi((i % 40) as i32) / 100.0,
                _ => scale * (1 + r.below(12)) as f64 / 8.0,
            };
        }
        if v.windows(2).all(|w| w[0] < w[1]) {
            return v;
        }
    }
}

pub fn data<V: Fl>(r: &mut Rng, n: usize) -> Pts {
    let single = V::EPS > 1e-10;
    let x = knots::<V>(r, n);
    let sc = if single { 16 } else { 120 };
    let ys = 2f64.powi(r.range(-sc, sc) as i32);
    let style = r.below(5);
    let mut walk = 0.0;
    let span = if n > 1 { (x[n - 1] - x[0]) / (n - 1) as f64 } else { 1.0 };
    let off = if r.chance(0.3) { r.real(-20.0, 20.0) } else { 0.0 };
    (0..n)
        .map(|i| {
            let y = match style {
                0 => r.real(-1.0, 1.0),
                1 => {
                    walk += r.real(-1.0, 1.0);
                    walk
                }
                2 => {
                    walk += r.unit();
                    walk
                }
                3 => (i as f64 * 0.7).sin() + off,
                _ => if r.chance(0.3) { 1.0 } else { 0.0 },
            };
            let m = r.real(-2.0, 2.0) * ys / span;
            (x[i], V::of(y * ys).into(), V::of(m).into())
        })
        .collect()
}

std::thread_local! {
    /// The size of the next data sets, when not random.
    static SIZE: std::cell::Cell<Option<usize>> = const { std::cell::Cell::new(None) };
}

pub fn size(r: &mut Rng, min: usize) -> usize {
    if let Some(n) = SIZE.get() {
        return n;
    }
    match r.below(12) {
        0 => min,
        1 => min + 1,
        2 | 3 => min + r.below(3) as usize,
        4..=8 => min + r.below(9) as usize,
        9 | 10 => min + r.below(40) as usize,
        _ => min + r.below(300) as usize,
    }
}

/// Query points of one fitted curve: inside every interval sampled, biased to ends.
pub fn queries<V: Fl>(r: &mut Rng, p: &Pts, k: usize) -> Vec<f64> {
    let n = p.len();
    let mut v = vec![];
    for j in 0..k {
        if n == 1 {
            return vec![p[0].0];
        }
        let i = match j % 5 {
            0 => 0,
            1 => n - 2,
            2 if n > 2 => 1,
            3 if n > 2 => n - 3,
            _ => r.below(n as u64 - 1) as usize,
        };
        let t = match r.below(6) {
            0 => 0.5,
            1 => 1e-3 * r.unit(),
            2 => 1.0 - 1e-3 * r.unit(),
            _ => r.unit(),
        };
        let x: f64 = V::of(p[i].0 + t * (p[i + 1].0 - p[i].0)).into();
        v.push(x.clamp(p[i].0, p[i + 1].0));
    }
    if n > 500 {
        // once through a long list
        for w in p.windows(2) {
            let x: f64 = V::of(w[0].0 + r.unit() * (w[1].0 - w[0].0)).into();
            v.push(x.clamp(w[0].0, w[1].0));
        }
    }
    v
}

fn show(p: &Pts) -> String {
    let s: Vec<String> = p.iter().take(8).map(|t| format!("({:e},{:e},{:e})", t.0, t.1, t.2)).collect();
    format!("{} knots {}{}", p.len(), s.join(" "), if p.len() > 8 { " …" } else { "" })
}

fn both(c: &mut Ctx, n: u64, f: fn(&mut Ctx, u64), g: fn(&mut Ctx, u64)) {
    for t in 0..n {
        if t % 3 == 2 { g(c, t) } else { f(c, t) }
    }
}

/// The same cases on data sets of thousands of knots, and more than 2^16.
fn long(c: &mut Ctx, f: fn(&mut Ctx, u64), g: fn(&mut Ctx, u64)) {
    for t in 0..c.n(1, 4) {
        let n = if t % 2 == 0 { 1000 + c.rng.below(6000) } else { 65_600 + c.rng.below(100) };
        SIZE.set(Some(n as usize));
        // every method in both precisions
        for k in 0..8 {
            if k < 4 { f(c, t * 4 + k) } else { g(c, t * 4 + k) }
        }
        SIZE.set(None);
        c.count("data sets of thousands of knots", 8);
    }
}

fn key<V: Fl>(k: Kind, p: &Pts) -> u64 {
    hash((k, V::NAME, p.iter().map(|t| (t.0.to_bits(), t.1.to_bits())).collect::<Vec<_>>()))
}

fn with_fit<V: Fl>(c: &mut Ctx, k: Kind, p: &Pts, f: impl FnOnce(&mut Ctx, &Fitted<V>, &dyn Fn() -> String)) {
    let name = || format!("{k:?} ({}) {}", V::NAME, show(p));
    c.guard(name, |c| match fit::<V>(k, &cast(p)) {
        Ok(i) => f(c, &i, &name),
        Err(e) => c.violate(format!("{}: good data refused: {e}", name())),
    });
}

// ---- M01
fn m01_case<V: Fl>(c: &mut Ctx, t: u64) {
    let k = KINDS[(t % 4) as usize];
    let n = size(&mut c.rng, k.min());
    let p = data::<V>(&mut c.rng, n);
    with_fit::<V>(c, k, &p, |c, i, name| {
        c.case(n > 1, key::<V>(k, &p));
        let r = Ref::new(k, &p);
        for (j, q) in p.iter().enumerate() {
            let x = V::of(q.0);
            let near = [Some(x), (j > 0).then(|| x.down()), (j + 1 < n).then(|| x.up())];
            for (w, xx) in near.into_iter().enumerate() {
                let Some(xx) = xx else { continue };
                let xf: f64 = xx.into();
                if w > 0 && (xf < p[0].0 || xf > p[n - 1].0) {
                    continue;
                }
                let (want, tol) = r.at(xf, V::EPS);
                let quirk = r.quirk(xf, V::EPS).map_or(0.0, |z| (z.0 - dd(q.1)).abs());
                // at the knot itself the neighbouring interval may be used as well
                let (_, tol2) = if j > 0 && n > 1 { r.on(j - 1, q.0, V::EPS) } else { (want, 0.0) };
                let slack = tol.max(tol2) + 2.0 * (want - dd(q.1)).abs().max(quirk);
                match i.at(xx) {
                    Ok(v) => {
                        let v: f64 = v.into();
                        let d = (v - q.1).abs();
                        c.check(d <= slack, || format!("{}: at {} knot {j} ({:e}): {v:e}, ordinate {:e} (off by {d:e}, allowance {slack:e})", name(), ["the", "just left of", "just right of"][w], q.0, q.1));
                    }
                    Err(e) => c.violate(format!("{}: knot {j}: refused: {e}", name())),
                }
                c.count("knot evaluations", 1);
            }
        }
    });
}
pub fn m01(c: &mut Ctx) {
    c.rule = "random data sets (1-300 knots, even to very uneven spacing, both precisions, four methods), every knot and its two floating-point neighbours queried; non-trivial: more than one knot; keys are the data".into();
    c.require(5000);
    both(c, c.n(24_000, 600_000), m01_case::<f64>, m01_case::<f32>);
    long(c, m01_case::<f64>, m01_case::<f32>);
    c.sample(|| "CatmullRom (0,0) (1,1) (2,4) at 2 -> 4".into());
    for t in 0..6 {
        let p = data::<f64>(&mut c.rng, 3 + t);
        c.sample(|| show(&p));
    }
}

// ---- M02
fn is_nan_err<V: Fl>(r: &Result<V, InterpolationError<V>>) -> bool {
    r.is_err()
}
fn m02_case<V: Fl>(c: &mut Ctx, t: u64) {
    let k = KINDS[(t % 4) as usize];
    let n = size(&mut c.rng, k.min());
    let mut p = data::<V>(&mut c.rng, n);
    if c.rng.chance(0.15) {
        // a knot at zero, first or last
        let s = if c.rng.chance(0.5) { p[0].0 } else { p[n - 1].0 };
        let q: Pts = p.iter().map(|z| (V::of(z.0 - s).into(), z.1, z.2)).collect();
        if q.windows(2).all(|w| w[0].0 < w[1].0) {
            p = q;
        }
    }
    let (first, last) = (V::of(p[0].0), V::of(p[n - 1].0));
    let inside = queries::<V>(&mut c.rng, &p, 10);
    let (f1, f2): (f64, f64) = (first.into(), last.into());
    let span = (f2 - f1).max(1.0);
    let far = [c.rng.unit(), c.rng.unit() * 1e3];
    with_fit::<V>(c, k, &p, |c, i, name| {
        c.case(true, key::<V>(k, &p));
        let mut ok = vec![first, last];
        ok.extend(inside.iter().map(|x| V::of(*x)));
        if n > 1 {
            ok.extend([first.up(), last.down()]);
        }
        if f1 == 0.0 || f2 == 0.0 {
            ok.extend([V::of(0.0), V::of(-0.0)]);
            c.count("signed-zero boundary queries", 2);
        }
        for x in ok {
            c.count("inside queries", 1);
            match i.at(x) {
                Ok(v) => c.check(Into::<f64>::into(v).is_finite(), || format!("{}: {v} at {x:e} inside the domain", name(), x = Into::<f64>::into(x))),
                Err(e) => c.violate(format!("{}: {:e} inside the domain refused: {e}", name(), Into::<f64>::into(x))),
            }
        }
        let max: f64 = if V::EPS > 1e-10 { f64::from(f32::MAX) } else { f64::MAX };
        let below = [first.down(), V::of(f1 - span * far[0]).min(first.down()), V::of(f1 - span * far[1]).min(first.down()), V::of(-max), V::of(f64::NEG_INFINITY)];
        for x in below {
            c.count("queries below", 1);
            let g = i.at(x);
            c.check(matches!(&g, Err(InterpolationError::OutOfLowerBound(e)) if e.bits() == x.bits()), || format!("{}: {:e} below the first knot answered {g:?}", name(), Into::<f64>::into(x)));
        }
        let above = [last.up(), V::of(f2 + span * far[0]).max(last.up()), V::of(f2 + span * far[1]).max(last.up()), V::of(max), V::of(f64::INFINITY)];
        for x in above {
            c.count("queries above", 1);
            let g = i.at(x);
            c.check(matches!(&g, Err(InterpolationError::OutOfUpperBound(e)) if e.bits() == x.bits()), || format!("{}: {:e} above the last knot answered {g:?}", name(), Into::<f64>::into(x)));
        }
        for x in [V::of(f64::NAN), V::of(-f64::NAN)] {
            let g = i.at(x);
            c.check(is_nan_err(&g), || format!("{}: not-a-number query answered {g:?}", name()));
        }
    });
}
pub fn m02(c: &mut Ctx) {
    c.rule = "random fitted interpolants, each queried inside, exactly at both ends, one float outside, far outside, at infinities and not-a-number; unfitted ones queried too; keys are the data".into();
    c.require(5000);
    fn unf<V: Fl>(c: &mut Ctx) {
        for k in KINDS {
            for how in [false, true] {
                let Some(i) = unfitted::<V>(k, how) else { continue };
                for x in [0.0, -1.0, 1.0, 1e30, f64::INFINITY, f64::NEG_INFINITY, f64::NAN] {
                    c.guard(|| format!("unfitted {k:?} at {x}"), |c| {
                        let g = i.at(V::of(x));
                        c.case(true, hash((k, how, x.to_bits(), V::NAME)));
                        c.check(matches!(g, Err(InterpolationError::InsufficientPointsError(0))), || format!("unfitted {k:?} ({}) at {x}: {g:?}", V::NAME));
                        c.count("unfitted queries", 1);
                    });
                }
            }
        }
        c.guard(|| "Linear fitted to nothing".into(), |c| {
            let g = fit::<V>(Kind::Linear, &[]).map(|i| i.at(V::of(0.0)));
            c.check(matches!(g, Ok(Err(InterpolationError::InsufficientPointsError(0)))) || g.is_err(), || "Linear fitted to no points answered a query".into());
        });
    }
    unf::<f64>(c);
    unf::<f32>(c);
    both(c, c.n(40_000, 1_000_000), m02_case::<f64>, m02_case::<f32>);
    long(c, m02_case::<f64>, m02_case::<f32>);
    c.sample(|| "unfitted NaturalCubic at 0 -> insufficient points".into());
    for t in 0..5 {
        let p = data::<f32>(&mut c.rng, 3 + t);
        c.sample(|| show(&p));
    }
}

// ---- M03
fn m03_case<V: Fl>(c: &mut Ctx, t: u64) {
    let k = KINDS[(t % 4) as usize];
    let n = match c.rng.below(4) {
        0 if SIZE.get().is_none() => c.rng.below(4) as usize,
        _ => size(&mut c.rng, 1),
    };
    let mut p = if n == 0 { vec![] } else { data::<V>(&mut c.rng, n) };
    if c.rng.chance(0.1) {
        // ordinates of any finite size
        for q in &mut p {
            q.1 = V::of(if V::EPS > 1e-10 { f64::from(f32::MAX) } else { f64::MAX } * c.rng.real(-0.9, 0.9)).into();
        }
    }
    if c.rng.chance(0.1) && n > 1 {
        // adjacent floats
        let mut x = V::of(p[0].0);
        for q in &mut p {
            q.0 = x.into();
            x = x.up();
        }
    }
    if c.rng.chance(0.05) && n > 0 {
        // any ordinate and slope will do
        let k = c.rng.below(n as u64) as usize;
        let v = *c.rng.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
        if c.rng.chance(0.5) { p[k].1 = v } else { p[k].2 = v }
    }
    if c.rng.chance(0.05) && n > 1 {
        // infinite ends are in order
        if c.rng.chance(0.5) { p[0].0 = f64::NEG_INFINITY } else { p[n - 1].0 = f64::INFINITY }
    }
    let mut bad = false;
    if n > 1 {
        let i = match c.rng.below(4) {
            0 => 0,
            1 => n - 2,
            _ => c.rng.below(n as u64 - 1) as usize,
        };
        match c.rng.below(12) {
            0 => p[i + 1].0 = p[i].0,
            10 => p[i].0 = f64::INFINITY,
            11 => p[i + 1].0 = f64::NEG_INFINITY,
            9 => p[i + usize::from(c.rng.chance(0.5))].0 = f64::NAN,
            1 => p.swap(i, i + 1),
            2 => p[i + 1].0 = V::of(p[i].0).down().into(),
            3 => {
                let j = c.rng.below(n as u64) as usize;
                if i != j {
                    p.swap(i, j);
                }
            }
            4 => p.reverse(),
            5 => {
                // same position repeated further away
                p[n - 1].0 = p[i].0;
            }
            6 => {
                // 0.0 against -0.0
                if let Some(z) = (1..n).find(|j| p[*j - 1].0 < 0.0 && p[*j].0 > 0.0 && *j + 1 < n) {
                    p[z].0 = 0.0;
                    p[z - 1].0 = -0.0;
                }
            }
            _ => {}
        }
        bad = !p.windows(2).all(|w| w[0].0 < w[1].0);
    }
    let few = n < 3 && k != Kind::Linear;
    let name = || format!("{k:?} ({}) {}", V::NAME, show(&p));
    c.guard(name, |c| {
        c.case(bad || few, key::<V>(k, &p));
        c.count(if bad { "unordered or repeated data" } else if few { "too few points" } else { "good data" }, 1);
        // fitted fresh and fitted over an earlier fit
        let prev: Pts = vec![(0.0, 1.0, 0.0), (1.0, 2.0, 0.0), (2.0, 5.0, 0.0), (3.0, 5.0, 0.0)];
        let results = [fit::<V>(k, &cast(&p)), fit::<V>(k, &cast(&prev)).expect("good data").refit(&cast(&p))];
        for g in results {
            let ok = match &g {
                Ok(_) => !bad && !few,
                Err(InterpolationError::PointOrderError) => bad,
                Err(InterpolationError::InsufficientPointsError(m)) => few && *m == n,
                Err(_) => false,
            };
            c.check(ok, || format!("{}: {} gave {}", name(), if bad { "unordered or repeated data" } else if few { "too few points" } else { "good data" }, match &g {
                Ok(_) => "a fit".to_string(),
                Err(e) => format!("{e:?}"),
            }));
        }
    });
}
pub fn m03(c: &mut Ctx) {
    c.rule = "knot lists of 0-300 points, sorted, or with one defect (repeat, swap, reversal, one float back, -0.0/0.0) at any position; fitted fresh and over a previous fit; non-trivial: defective or too short; keys are the data".into();
    c.require(5000);
    both(c, c.n(80_000, 2_000_000), m03_case::<f64>, m03_case::<f32>);
    long(c, m03_case::<f64>, m03_case::<f32>);
    // every position of every short list
    for k in KINDS {
        for n in 2..=9usize {
            for i in 0..n - 1 {
                for how in 0..5 {
                    let mut p: Pts = (0..n).map(|j| (j as f64, (j * j) as f64, 1.0)).collect();
                    match how {
                        0 => p[i + 1].0 = p[i].0,
                        1 => p.swap(i, i + 1),
                        2 => p[i + 1].0 = -5.0,
                        3 => p[i].0 = f64::NAN,
                        _ => p[i + 1].0 = f64::NAN,
                    }
                    c.guard(|| format!("{k:?} {n} points, defect {how} at {i}"), |c| {
                        c.enumerated(true);
                        let few = n < 3 && k != Kind::Linear;
                        let g = fit::<f64>(k, &p);
                        let ok = matches!(&g, Err(InterpolationError::PointOrderError)) || few && matches!(&g, Err(InterpolationError::InsufficientPointsError(m)) if *m == n);
                        c.check(ok, || format!("{k:?}: defect at position {i} of {n} not refused as such: {}", show(&p)));
                    });
                }
            }
        }
    }
    c.sample(|| "Linear (0,..) (0,..) -> point order; NaturalCubic with 2 points -> insufficient points 2".into());
    for t in 0..5 {
        let p = data::<f32>(&mut c.rng, 3 + t);
        c.sample(|| show(&p));
    }
}

// ---- M04–M07: against the reference
fn curve_case<V: Fl>(c: &mut Ctx, k: Kind, p: &Pts, nq: usize) {
    let qs = queries::<V>(&mut c.rng, p, nq);
    with_fit::<V>(c, k, p, |c, i, name| {
        c.case(p.len() > 1, key::<V>(k, p));
        let r = Ref::new(k, p);
        for x in &qs {
            let g = i.at(V::of(*x));
            judge(c, &r, name, *x, &g, "value");
            c.count("curve evaluations", 1);
            let e = r.interval(*x);
            c.count(if e == 0 { "first-interval queries" } else if e + 2 == p.len() { "last-interval queries" } else { "interior queries" }, 1);
        }
    });
}

fn line<V: Fl>(r: &mut Rng, n: usize) -> Pts {
    let x = knots::<V>(r, n);
    let (a, b) = (r.real(-3.0, 3.0), r.real(-5.0, 5.0));
    x.iter().map(|x| (*x, V::of(a + b * x).into(), V::of(b).into())).collect()
}

/// Only the knots `near` the queried interval may matter.
fn locality<V: Fl>(c: &mut Ctx, k: Kind, reach: usize) {
    let n = size(&mut c.rng, 6);
    let p = data::<V>(&mut c.rng, n);
    let i = c.rng.below(n as u64 - 1) as usize;
    let mut q = p.clone();
    for (j, z) in q.iter_mut().enumerate() {
        if j + reach < i || j > i + 1 + reach {
            z.1 = V::of(z.1 * c.rng.real(-3.0, 3.0) + 1.0).into();
            z.2 = V::of(z.2 * c.rng.real(-3.0, 3.0)).into();
        }
    }
    let x: f64 = V::of(p[i].0 + c.rng.unit() * (p[i + 1].0 - p[i].0)).into();
    let x = x.clamp(p[i].0, p[i + 1].0);
    with_fit::<V>(c, k, &p, |c, f, name| {
        let g = fit::<V>(k, &cast(&q));
        c.case(true, hash((key::<V>(k, &p), i)));
        let tol = Ref::new(k, &p).at(x, V::EPS).1 + Ref::new(k, &q).at(x, V::EPS).1;
        match (f.at(V::of(x)), g.map(|g| g.at(V::of(x)))) {
            (Ok(a), Ok(Ok(b))) => {
                let (a, b): (f64, f64) = (a.into(), b.into());
                c.check((a - b).abs() <= tol, || format!("{}: at {x:e} changes from {a:e} to {b:e} when knots away from interval {i} change", name()));
            }
            _ => c.violate(format!("{}: refused at {x:e}", name())),
        }
        c.count("locality comparisons", 1);
    });
}

/// The chord in units far from one: the data times powers of two, where the
/// slope and the values are still well inside the number type's range.
fn far_units<V: Fl>(c: &mut Ctx) {
    let single = V::EPS > 1e-10;
    let (lim, gap) = if single { (45, 60) } else { (500, 700) };
    let n = size(&mut c.rng, 2);
    let p = data::<V>(&mut c.rng, n);
    let (a, b) = loop {
        let (a, b) = (c.rng.range(-lim, lim), c.rng.range(-lim, lim));
        if (a - b).abs() <= gap {
            break (2f64.powi(a as i32), 2f64.powi(b as i32));
        }
    };
    let far: Pts = p.iter().map(|t| (t.0 * a, t.1 * b, 0.0)).collect();
    let qs = queries::<V>(&mut c.rng, &p, 5);
    with_fit::<V>(c, Kind::Linear, &far, |c, f, name| {
        c.case(true, key::<V>(Kind::Linear, &far));
        c.count("data sets in far units", 1);
        let r = Ref::new(Kind::Linear, &p);
        for x in &qs {
            let (want, tol) = r.at(*x, V::EPS);
            let g = f.at(V::of(*x * a)).map(Into::<f64>::into);
            c.check(matches!(g, Ok(g) if (g / b - want.f()).abs() <= 2.0 * tol), || format!("{}: {g:?} at {:e}, expected {:e}", name(), x * a, want.f() * b));
        }
    });
}

pub fn m04_case<V: Fl>(c: &mut Ctx, t: u64) {
    let n = size(&mut c.rng, 1);
    let p = data::<V>(&mut c.rng, n);
    curve_case::<V>(c, Kind::Linear, &p, 12);
    if t % 4 == 0 {
        far_units::<V>(c);
    }
    if n > 1 {
        let i = c.rng.below(n as u64 - 1) as usize;
        let mut xs: Vec<f64> = (0..6).map(|_| Into::<f64>::into(V::of(p[i].0 + c.rng.unit() * (p[i + 1].0 - p[i].0))).clamp(p[i].0, p[i + 1].0)).collect();
        // at the left knot itself the answer may be that of the chord before it, with that chord's rounding
        xs.retain(|x| *x > p[i].0);
        xs.sort_by(f64::total_cmp);
        with_fit::<V>(c, Kind::Linear, &p, |c, f, name| {
            let (lo, hi) = (p[i].1.min(p[i + 1].1), p[i].1.max(p[i + 1].1));
            let tol = 8.0 * V::EPS * (lo.abs() + hi.abs());
            let up = p[i + 1].1 >= p[i].1;
            let mut prev: Option<f64> = None;
            for x in &xs {
                let Ok(v) = f.at(V::of(*x)) else {
                    c.violate(format!("{}: refused at {x:e}", name()));
                    continue;
                };
                let v: f64 = v.into();
                c.check(v >= lo - tol && v <= hi + tol, || format!("{}: {v:e} at {x:e} outside [{lo:e}, {hi:e}]", name()));
                if let Some(b) = prev {
                    c.check(if up { v >= b - tol } else { v <= b + tol }, || format!("{}: not monotone in interval {i}: {b:e} then {v:e}", name()));
                }
                prev = Some(v);
            }
        });
    }
    if n == 1 {
        c.count("single-knot curves", 1);
        with_fit::<V>(c, Kind::Linear, &p, |c, f, name| {
            let x = V::of(p[0].0);
            let g = f.at(x);
            c.check(matches!(g, Ok(v) if Into::<f64>::into(v) == p[0].1), || format!("{}: {g:?} at the only knot", name()));
            c.check(f.at(x.up()).is_err() && f.at(x.down()).is_err(), || format!("{}: answered away from the only knot", name()));
        });
    }
    if t % 3 == 0 {
        locality::<V>(c, Kind::Linear, 0);
    }
}
pub fn m04(c: &mut Ctx) {
    c.rule = "random data sets (1-300 knots, both precisions) compared with the chord in double-double arithmetic; bounds, monotonicity and independence from other knots; non-trivial: two knots or more; keys are the data".into();
    c.require(5000);
    both(c, c.n(40_000, 1_000_000), m04_case::<f64>, m04_case::<f32>);
    long(c, m04_case::<f64>, m04_case::<f32>);
    for t in 0..5 {
        let p = data::<f64>(&mut c.rng, 2 + t);
        c.sample(|| show(&p));
    }
}

pub fn m05_case<V: Fl>(c: &mut Ctx, t: u64) {
    let n = match c.rng.below(40) {
        0 if SIZE.get().is_none() => 500 + c.rng.below(1500) as usize,
        _ => size(&mut c.rng, 3),
    };
    let p = if t % 4 == 0 { line::<V>(&mut c.rng, n) } else { data::<V>(&mut c.rng, n) };
    if t % 4 == 0 {
        c.count("straight-line data sets", 1);
    }
    if n == 3 {
        c.count("three-knot data sets", 1);
    }
    if n > 200 {
        c.count("data sets of more than 200 knots", 1);
    }
    curve_case::<V>(c, Kind::Natural, &p, 24);
}
pub fn m05(c: &mut Ctx) {
    c.rule = "random data sets (3-2000 knots, both precisions, straight lines included) compared with the natural spline solved in double-double arithmetic, within a bound propagated through the system; keys are the data".into();
    c.require(5000);
    both(c, c.n(24_000, 500_000), m05_case::<f64>, m05_case::<f32>);
    long(c, m05_case::<f64>, m05_case::<f32>);
    for t in 0..5 {
        let p = data::<f64>(&mut c.rng, 3 + t);
        c.sample(|| show(&p));
    }
}

pub fn m06_case<V: Fl>(c: &mut Ctx, t: u64) {
    let n = size(&mut c.rng, 3);
    if t % 3 == 0 {
        // samples of one cubic come back as that cubic
        let x = knots::<V>(&mut c.rng, n);
        let span = (x[n - 1] - x[0]).max(x[0].abs()).max(x[n - 1].abs());
        let co: Vec<f64> = (0..4).map(|_| c.rng.real(-1.0, 1.0)).collect();
        let f = |x: f64| {
            let u = dd(x) / dd(span);
            dd(co[0]) + u * (dd(co[1]) + u * (dd(co[2]) + u * dd(co[3])))
        };
        let fp = |x: f64| {
            let u = dd(x) / dd(span);
            (dd(co[1]) + u * (dd(2.0 * co[2]) + u * dd(3.0 * co[3]))) / dd(span)
        };
        let p: Pts = x.iter().map(|x| (*x, V::of(f(*x).f()).into(), V::of(fp(*x).f()).into())).collect();
        let qs = queries::<V>(&mut c.rng, &p, 12);
        with_fit::<V>(c, Kind::Hermite, &p, |c, i, name| {
            c.case(true, key::<V>(Kind::Hermite, &p));
            c.count("sampled cubics", 1);
            let r = Ref::new(Kind::Hermite, &p);
            for x in qs {
                let (_, tol) = r.at(x, V::EPS);
                let tol = tol + 4.0 * V::EPS * (4.0 + 8.0);
                match i.at(V::of(x)) {
                    Ok(v) => {
                        let v: f64 = v.into();
                        let w = f(x).f();
                        c.check((v - w).abs() <= tol, || format!("{}: {v:e} at {x:e}, the sampled cubic is {w:e}", name()));
                    }
                    Err(e) => c.violate(format!("{}: refused at {x:e}: {e}", name())),
                }
            }
        });
        return;
    }
    let p = data::<V>(&mut c.rng, n);
    curve_case::<V>(c, Kind::Hermite, &p, 16);
    if t % 4 == 1 {
        locality::<V>(c, Kind::Hermite, 0);
    }
}
pub fn m06(c: &mut Ctx) {
    c.rule = "random values and slopes (3-300 knots, both precisions) compared with the Hermite cubic in double-double arithmetic, sampled cubics, and independence from other knots; keys are the data".into();
    c.require(5000);
    both(c, c.n(40_000, 1_000_000), m06_case::<f64>, m06_case::<f32>);
    long(c, m06_case::<f64>, m06_case::<f32>);
    // slopes at the knots from divided differences of the curve itself
    for t in 0..c.n(3000, 50_000) {
        let n = size(&mut c.rng, 3);
        let p: Pts = (0..n).map(|j| (j as f64 * 0.5, c.rng.real(-1.0, 1.0), c.rng.real(-3.0, 3.0))).collect();
        with_fit::<f64>(c, Kind::Hermite, &p, |c, i, name| {
            c.case(true, hash(("slope", t)));
            let s = 1.0 / 4096.0;
            for (j, q) in p.iter().enumerate() {
                for side in [-1.0, 1.0] {
                    let at = |k: f64| i.at(q.0 + side * k * s);
                    if let (Ok(a), Ok(b), Ok(d), Ok(e)) = (at(0.0), at(1.0), at(2.0), at(3.0)) {
                        // exact for cubics
                        let slope = side * (-11.0 * a + 18.0 * b - 9.0 * d + 2.0 * e) / (6.0 * s);
                        c.check((slope - q.2).abs() < 1e-9, || format!("{}: slope {slope} at knot {j} from the {}, prescribed {}", name(), if side < 0.0 { "left" } else { "right" }, q.2));
                        c.count("knot slopes measured", 1);
                    }
                }
            }
        });
    }
    for t in 0..5 {
        let p = data::<f64>(&mut c.rng, 3 + t);
        c.sample(|| show(&p));
    }
}

pub fn m07_case<V: Fl>(c: &mut Ctx, t: u64) {
    let n = size(&mut c.rng, 3);
    let p = if t % 4 == 0 { line::<V>(&mut c.rng, n) } else { data::<V>(&mut c.rng, n) };
    curve_case::<V>(c, Kind::Catmull, &p, 20);
    if t % 4 == 1 {
        locality::<V>(c, Kind::Catmull, 1);
    }
}
pub fn m07(c: &mut Ctx) {
    c.rule = "random data sets (3-300 knots, both precisions, straight lines included) compared with the neighbour-chord Hermite cubic in double-double arithmetic; independence from far knots; keys are the data".into();
    c.require(5000);
    both(c, c.n(40_000, 1_000_000), m07_case::<f64>, m07_case::<f32>);
    long(c, m07_case::<f64>, m07_case::<f32>);
    for t in 0..5 {
        let p = data::<f64>(&mut c.rng, 3 + t);
        c.sample(|| show(&p));
    }
}

// ---- M08
fn value<V: Fl>(i: &Fitted<V>, x: f64) -> Option<f64> {
    i.at(V::of(x)).ok().map(Into::into)
}

#[allow(clippy::too_many_arguments)]
fn law<V: Fl>(c: &mut Ctx, law: &str, k: Kind, p: &Pts, q: &Pts, xs: &[(f64, f64)], map: &dyn Fn(usize, f64) -> f64, extra: &dyn Fn(usize) -> f64) {
    with_fit::<V>(c, k, p, |c, f, name| {
        let g = match fit::<V>(k, &cast(q)) {
            Ok(g) => g,
            Err(e) => {
                c.violate(format!("{}: {law}: transformed data refused: {e}", name()));
                return;
            }
        };
        let (rp, rq) = (Ref::new(k, p), Ref::new(k, q));
        for (j, (x, z)) in xs.iter().enumerate() {
            let (Some(a), Some(b)) = (value(f, *x), value(&g, *z)) else {
                c.violate(format!("{}: {law}: refused at {x:e} or {z:e}", name()));
                continue;
            };
            let want = map(j, a);
            let scale = (map(j, 1.0) - map(j, 0.0)).abs();
            let tol = scale * rp.at(*x, V::EPS).1 + rq.at(*z, V::EPS).1 + extra(j);
            c.count(law, 1);
            if !((b - want).abs() <= tol) {
                let detail = || format!("{}: {law}: {b:e} at {z:e}, expected {want:e} from {a:e} at {x:e} (allowance {tol:e})", name());
                let hit = |r: &Ref, x: f64, v: f64| r.quirk(x, V::EPS).is_some_and(|(w, t)| (dd(v) - w).abs() <= t);
                let good = |r: &Ref, x: f64, v: f64| (dd(v) - r.at(x, V::EPS).0).abs() <= r.at(x, V::EPS).1;
                if law == "mirror law" && (hit(&rp, *x, a) && good(&rq, *z, b) || hit(&rq, *z, b) && good(&rp, *x, a)) {
                    c.known_or_violate("catmull-rom-last-interval", detail);
                } else {
                    c.violate(detail());
                }
            }
        }
    });
}

fn m08_case<V: Fl>(c: &mut Ctx, t: u64) {
    let k = KINDS[(t % 4) as usize];
    let n = size(&mut c.rng, k.min());
    // knots with few significant bits, so that shifts are exact
    let mut x = c.rng.range(-200, 200) as f64 / 8.0;
    let grid: Vec<f64> = (0..n)
        .map(|_| {
            let v = x;
            x += (1 + c.rng.below(40)) as f64 / 8.0;
            v
        })
        .collect();
    let ys = 2f64.powi(c.rng.range(-6, 6) as i32);
    let mk = |r: &mut Rng| -> Pts { grid.iter().map(|x| (*x, V::of(r.real(-1.0, 1.0) * ys).into(), V::of(r.real(-2.0, 2.0) * ys).into())).collect() };
    let p = mk(&mut c.rng);
    c.case(true, key::<V>(k, &p));
    // dyadic queries stay exact under the shifts and reflections as well
    let mut xs: Vec<f64> = vec![grid[0], grid[n - 1]];
    for _ in 0..10 {
        let u = c.rng.unit();
        let x = ((grid[0] + u * (grid[n - 1] - grid[0])) * 256.0).floor() / 256.0;
        xs.push(x.max(grid[0]));
    }
    let same: Vec<(f64, f64)> = xs.iter().map(|x| (*x, *x)).collect();
    let none = |_: usize| 0.0;
    let round = |v: f64| -> f64 { V::of(v).into() };
    let s = match c.rng.below(3) {
        0 => {
            let far = if V::EPS > 1e-10 { 24 } else { 150 };
            2f64.powi(c.rng.range(-far, far) as i32)
        }
        1 => -1.0,
        _ => round(c.rng.real(-7.0, 7.0)),
    };
    let ymax = p.iter().map(|q| q.1.abs()).fold(0.0, f64::max);
    let smax = p.iter().map(|q| q.2.abs()).fold(0.0, f64::max) * 6.0;
    // rounding of the transformed data moves the curve by at most this much
    let amp = if k == Kind::Natural { 200.0 } else { 20.0 };
    let q: Pts = p.iter().map(|z| (z.0, round(z.1 * s), round(z.2 * s))).collect();
    let e = amp * V::EPS * s.abs() * (ymax + smax);
    law::<V>(c, "ordinate scaling", k, &p, &q, &same, &|_, a| a * s, &|_| e);
    let b = round(c.rng.real(-4.0, 4.0) * ys);
    let q: Pts = p.iter().map(|z| (z.0, round(z.1 + b), z.2)).collect();
    let e = amp * V::EPS * (ymax + b.abs());
    law::<V>(c, "ordinate shift", k, &p, &q, &same, &|_, a| a + b, &|_| e);
    // additivity
    let p2 = mk(&mut c.rng);
    let q: Pts = p.iter().zip(&p2).map(|(a, b)| (a.0, round(a.1 + b.1), round(a.2 + b.2))).collect();
    c.guard(|| format!("{k:?} {}", show(&p2)), |c| {
        if let Ok(g) = fit::<V>(k, &cast(&p2)) {
            let other: Vec<Option<f64>> = xs.iter().map(|x| value(&g, *x)).collect();
            let r2 = Ref::new(k, &p2);
            let t2: Vec<f64> = xs.iter().map(|x| r2.at(*x, V::EPS).1).collect();
            let e = 2.0 * amp * V::EPS * (2.0 * ys + 24.0 * ys);
            law::<V>(c, "additivity", k, &p, &q, &same, &|j, a| a + other[j].unwrap_or(f64::NAN), &|j| e + t2[j]);
        }
    });
    // abscissa shift (exact), scaling by a power of two, mirror
    let h = c.rng.range(-400, 400) as f64 / 8.0;
    let q: Pts = p.iter().map(|z| (z.0 + h, z.1, z.2)).collect();
    let moved: Vec<(f64, f64)> = xs.iter().map(|x| (*x, x + h)).collect();
    law::<V>(c, "abscissa shift", k, &p, &q, &moved, &|_, a| a, &none);
    let far = if V::EPS > 1e-10 { 24 } else { 150 };
    let far = if c.rng.chance(0.5) { 9 } else { far };
    let w = 2f64.powi(c.rng.range(-far, far) as i32);
    let q: Pts = p.iter().map(|z| (z.0 * w, z.1, z.2 / w)).collect();
    let moved: Vec<(f64, f64)> = xs.iter().map(|x| (*x, x * w)).collect();
    law::<V>(c, "abscissa scaling", k, &p, &q, &moved, &|_, a| a, &none);
    let q: Pts = p.iter().rev().map(|z| (-z.0, z.1, -z.2)).collect();
    let moved: Vec<(f64, f64)> = xs.iter().map(|x| (*x, -x)).collect();
    law::<V>(c, "mirror law", k, &p, &q, &moved, &|_, a| a, &none);
    // precision: data exact in single precision, fitted in both
    let ps: Pts = p.iter().map(|z| (z.0, f64::from(z.1 as f32), f64::from(z.2 as f32))).collect();
    // (in a longer list the grid itself is finer than single precision)
    c.guard(|| format!("{k:?} in both precisions {}", show(&ps)), |c| if n <= 5000 {
        let (Ok(f), Ok(g)) = (fit::<f64>(k, &cast(&ps)), fit::<f32>(k, &cast(&ps))) else {
            c.violate(format!("{k:?}: good data refused in one precision: {}", show(&ps)));
            return;
        };
        let r = Ref::new(k, &ps);
        for x in &xs {
            let (Some(a), Some(b)) = (value(&f, *x), value(&g, *x)) else {
                c.violate(format!("{k:?}: refused at {x} in one precision: {}", show(&ps)));
                continue;
            };
            let tol = r.at(*x, f64::from(f32::EPSILON)).1 + r.at(*x, f64::EPSILON).1;
            c.count("precision comparisons", 1);
            c.check((a - b).abs() <= tol, || format!("{k:?}: {b:e} in single, {a:e} in double precision at {x}: {}", show(&ps)));
        }
    });
    // refit and query order
    let mut ord = xs.clone();
    for j in (1..ord.len()).rev() {
        let z = c.rng.below(j as u64 + 1) as usize;
        ord.swap(j, z);
    }
    // fitted before on anything, or on nearly the same
    let mut decoy = p.clone();
    let lift = c.rng.range(1, 9) as f64;
    let j = c.rng.below(n as u64) as usize;
    match c.rng.below(8) {
        6 => {
            // the same and more
            let end = p[n - 1].0;
            decoy.extend((1..=2 + c.rng.below(5)).map(|i| (round(end + lift * i as f64), 1.0, 0.0)));
        }
        7 if n > k.min() => decoy.truncate(k.min().max(n / 2)),
        0 => decoy.iter_mut().for_each(|q| q.1 = round(q.1 + lift)),
        1 => decoy.iter_mut().for_each(|q| q.1 = 0.0),
        2 => decoy[j].1 = round(decoy[j].1 + lift),
        3 => decoy.iter_mut().for_each(|q| q.0 += lift),
        4 => decoy.iter_mut().for_each(|q| q.1 = round(q.1 + lift * q.0)),
        _ => {
            let n2 = size(&mut c.rng, k.min());
            decoy = data::<V>(&mut c.rng, n2);
        }
    }
    with_fit::<V>(c, k, &p, |c, f, name| {
        let first: Vec<(f64, Option<f64>)> = xs.iter().map(|x| (*x, value(f, *x))).collect();
        let again = match fit::<V>(k, &cast(&decoy)).and_then(|d| {
            let _ = d.at(V::of(decoy[0].0));
            d.refit(&cast(&p))
        }) {
            Ok(a) => a,
            Err(e) => {
                c.violate(format!("{}: refitting refused: {e}", name()));
                return;
            }
        };
        // another interpolant, alive and asked in between
        let other = fit::<V>(k, &cast(&decoy)).ok();
        // nothing of the earlier fit is left beyond the ends
        let (lo, hi) = (p[0].0, p[n - 1].0);
        for x in [lo - lift, lo - 1e-3, hi + 1e-3, hi + lift, hi + 1.5 * lift, hi + 40.0] {
            let (a, b) = (value(f, x), value(&again, x));
            c.check(a.map(f64::to_bits) == b.map(f64::to_bits), || format!("{}: {a:?} when fitted fresh, {b:?} when refitted at {x}", name()));
        }
        for x in &ord {
            if let Some(o) = &other {
                let _ = (o.at(V::of(*x)), o.at(V::of(decoy[n.min(decoy.len()) - 1].0)));
            }
            let w = first.iter().find(|z| z.0 == *x).unwrap().1;
            let _ = f.at(V::of(1e9));
            let _ = f.at(V::of(-1e9));
            let (a, b) = (value(f, *x), value(&again, *x));
            c.count("repeat and refit comparisons", 1);
            c.check(a.map(f64::to_bits) == w.map(f64::to_bits), || format!("{}: {w:?} first, {a:?} later at {x}", name()));
            c.check(b.map(f64::to_bits) == w.map(f64::to_bits), || format!("{}: {w:?} when fitted fresh, {b:?} when refitted at {x}", name()));
        }
    });
}
/// One interpolant asked thousands of different questions, again and again:
/// its age must not show.
fn m08_life<V: Fl>(c: &mut Ctx, k: Kind, questions: usize) {
    let n = k.min() + 1 + c.rng.below(24) as usize;
    let p = data::<V>(&mut c.rng, n);
    let x: Vec<f64> = p.iter().map(|t| t.0).collect();
    let mut xs: Vec<f64> = x.clone();
    while xs.len() < questions {
        let i = c.rng.below(n as u64 - 1) as usize;
        let h = x[i + 1] - x[i];
        let v = match c.rng.below(8) {
            // close to a knot, from either side
            0 => x[i] + h * c.rng.unit() * 1e-6,
            1 => x[i + 1] - h * c.rng.unit() * 1e-6,
            2 => x[i] + h * 0.5,
            // outside
            3 if c.rng.chance(0.2) => x[0] - h * c.rng.unit(),
            4 if c.rng.chance(0.2) => x[n - 1] + h * c.rng.unit(),
            _ => x[i] + h * c.rng.unit(),
        };
        xs.push(V::of(v).into());
    }
    c.case(true, hash((key::<V>(k, &p), questions)));
    let bits = |i: &Fitted<V>, x: f64| value(i, x).map(f64::to_bits);
    with_fit::<V>(c, k, &p, |c, f, name| {
        let first: Vec<Option<u64>> = xs.iter().map(|x| bits(f, *x)).collect();
        let mut order: Vec<usize> = (0..xs.len()).collect();
        for turn in 0..3 {
            for j in (1..order.len()).rev() {
                let z = c.rng.below(j as u64 + 1) as usize;
                order.swap(j, z);
            }
            for j in &order {
                let b = bits(f, xs[*j]);
                c.check(b == first[*j], || format!("{}: at {:e} {:?} at first, {:?} after {} thousand questions", name(), xs[*j], first[*j].map(f64::from_bits), b.map(f64::from_bits), (turn + 1) * xs.len() / 1000));
            }
        }
        // and no different from one that was never asked anything
        for j in order.iter().take(300) {
            let Ok(g) = fit::<V>(k, &cast(&p)) else { return };
            let b = bits(&g, xs[*j]);
            c.check(b == first[*j], || format!("{}: at {:e} {:?}, a new interpolant says {:?}", name(), xs[*j], first[*j].map(f64::from_bits), b.map(f64::from_bits)));
        }
        c.count("questions to long-lived interpolants", 4 * xs.len() as u64);
    });
}

pub fn m08(c: &mut Ctx) {
    c.rule = "random data sets on exact grids; each transformed by scaling, shifting, adding, mirroring, changing precision, refitting and reordering queries, the transformed answers compared; keys are the data".into();
    c.require(3000);
    both(c, c.n(12_000, 300_000), m08_case::<f64>, m08_case::<f32>);
    long(c, m08_case::<f64>, m08_case::<f64>);
    for t in 0..c.n(2, 20) {
        for k in KINDS {
            // now and then beyond 2^16 different questions
            let q = if t % 12 == 0 { 70_000 } else { 3000 };
            m08_life::<f64>(c, k, q);
            m08_life::<f32>(c, k, q / 2);
        }
    }
    for t in 0..5 {
        let p = data::<f64>(&mut c.rng, 3 + t);
        c.sample(|| show(&p));
    }
}
