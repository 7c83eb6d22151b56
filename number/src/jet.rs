//! A user's number type: about 31 digits and a derivative carried along.
use crate::dd::{dd, Dd};
use num_traits::real::Real;
use num_traits::{FromPrimitive, Num, NumCast, One, ToPrimitive, Zero};
use qlab_math::value::Value;
use std::cmp::Ordering;
use std::fmt;
use std::ops::*;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

/// How often the library read a number back into a built-in type.
pub static NARROWED: AtomicU64 = AtomicU64::new(0);
/// Arithmetic operations performed.
pub static OPS: AtomicU64 = AtomicU64::new(0);

#[derive(Clone, Copy, Debug)]
pub struct Jet {
    pub v: Dd,
    pub d: Dd,
}
pub fn jet(v: f64) -> Jet {
    Jet { v: dd(v), d: dd(0.0) }
}
fn op(v: Dd, d: Dd) -> Jet {
    OPS.fetch_add(1, Relaxed);
    Jet { v, d }
}
impl Default for Jet {
    fn default() -> Jet {
        jet(0.0)
    }
}
impl fmt::Display for Jet {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:e}", self.v.f())
    }
}
impl PartialEq for Jet {
    fn eq(&self, o: &Jet) -> bool {
        (self.v - o.v).f() == 0.0
    }
}
impl PartialOrd for Jet {
    fn partial_cmp(&self, o: &Jet) -> Option<Ordering> {
        (self.v - o.v).f().partial_cmp(&0.0)
    }
}
impl Add for Jet {
    type Output = Jet;
    fn add(self, o: Jet) -> Jet {
        op(self.v + o.v, self.d + o.d)
    }
}
impl Sub for Jet {
    type Output = Jet;
    fn sub(self, o: Jet) -> Jet {
        op(self.v - o.v, self.d - o.d)
    }
}
impl Mul for Jet {
    type Output = Jet;
    fn mul(self, o: Jet) -> Jet {
        op(self.v * o.v, self.v * o.d + self.d * o.v)
    }
}
impl Div for Jet {
    type Output = Jet;
    fn div(self, o: Jet) -> Jet {
        let q = self.v / o.v;
        op(q, (self.d - q * o.d) / o.v)
    }
}
impl Rem for Jet {
    type Output = Jet;
    fn rem(self, _: Jet) -> Jet {
        panic!("MONITOR: remainder of a real number")
    }
}
impl Neg for Jet {
    type Output = Jet;
    fn neg(self) -> Jet {
        op(-self.v, -self.d)
    }
}
impl AddAssign for Jet {
    fn add_assign(&mut self, o: Jet) {
        *self = *self + o;
    }
}
impl SubAssign for Jet {
    fn sub_assign(&mut self, o: Jet) {
        *self = *self - o;
    }
}
impl MulAssign for Jet {
    fn mul_assign(&mut self, o: Jet) {
        *self = *self * o;
    }
}
impl DivAssign for Jet {
    fn div_assign(&mut self, o: Jet) {
        *self = *self / o;
    }
}
impl Zero for Jet {
    fn zero() -> Jet {
        jet(0.0)
    }
    fn is_zero(&self) -> bool {
        self.v.f() == 0.0
    }
}
impl One for Jet {
    fn one() -> Jet {
        jet(1.0)
    }
}
impl Num for Jet {
    type FromStrRadixErr = ();
    fn from_str_radix(s: &str, radix: u32) -> Result<Jet, ()> {
        if radix == 10 { s.parse().map(jet).map_err(|_| ()) } else { Err(()) }
    }
}
fn whole(n: i128) -> Jet {
    // two doubles hold every 64-bit integer
    let hi = n as f64;
    let lo = (n - hi as i128) as f64;
    Jet { v: dd(hi) + dd(lo), d: dd(0.0) }
}
impl FromPrimitive for Jet {
    fn from_i64(n: i64) -> Option<Jet> {
        Some(whole(n as i128))
    }
    fn from_u64(n: u64) -> Option<Jet> {
        Some(whole(n as i128))
    }
    fn from_f64(x: f64) -> Option<Jet> {
        Some(jet(x))
    }
}
impl ToPrimitive for Jet {
    fn to_i64(&self) -> Option<i64> {
        NARROWED.fetch_add(1, Relaxed);
        self.v.f().to_i64()
    }
    fn to_u64(&self) -> Option<u64> {
        NARROWED.fetch_add(1, Relaxed);
        self.v.f().to_u64()
    }
    fn to_f64(&self) -> Option<f64> {
        NARROWED.fetch_add(1, Relaxed);
        Some(self.v.f())
    }
}
impl NumCast for Jet {
    fn from<T: ToPrimitive>(n: T) -> Option<Jet> {
        n.to_f64().map(jet)
    }
}

pub fn exp(x: Dd) -> Dd {
    // ln 2 to 31 digits
    let ln2 = Dd(std::f64::consts::LN_2, 2.319_046_813_846_299_6e-17);
    if x.f() < -700.0 {
        return dd(0.0);
    }
    let k = (x.f() / std::f64::consts::LN_2).round();
    // halved eight times, squared back
    let r = (x - ln2 * dd(k)) / dd(256.0);
    let (mut sum, mut term) = (dd(1.0), dd(1.0));
    for i in 1..14_u8 {
        term = term * r / dd(i as f64);
        sum = sum + term;
    }
    for _ in 0..8 {
        sum = sum * sum;
    }
    sum * dd(2f64.powi(k as i32))
}
impl Jet {
    /// a smooth function with its derivative
    fn via(self, v: Dd, slope: Dd) -> Jet {
        op(v, slope * self.d)
    }
    fn poor(self, v: f64, slope: f64) -> Jet {
        self.via(dd(v), dd(slope))
    }
}
impl Real for Jet {
    fn min_value() -> Jet {
        jet(f64::MIN)
    }
    fn min_positive_value() -> Jet {
        jet(f64::MIN_POSITIVE)
    }
    fn epsilon() -> Jet {
        jet(5e-32)
    }
    fn max_value() -> Jet {
        jet(f64::MAX)
    }
    fn floor(self) -> Jet {
        let hi = self.v.0.floor();
        jet(if hi == self.v.0 { hi + self.v.1.floor() } else { hi })
    }
    fn ceil(self) -> Jet {
        -(-self).floor()
    }
    fn round(self) -> Jet {
        (self + jet(0.5)).floor()
    }
    fn trunc(self) -> Jet {
        if self.v.f() < 0.0 { self.ceil() } else { self.floor() }
    }
    fn fract(self) -> Jet {
        self - self.trunc()
    }
    fn abs(self) -> Jet {
        if self.v.f() < 0.0 { -self } else { self }
    }
    fn signum(self) -> Jet {
        jet(self.v.f().signum())
    }
    fn is_sign_positive(self) -> bool {
        self.v.0.is_sign_positive()
    }
    fn is_sign_negative(self) -> bool {
        self.v.0.is_sign_negative()
    }
    fn mul_add(self, a: Jet, b: Jet) -> Jet {
        self * a + b
    }
    fn recip(self) -> Jet {
        jet(1.0) / self
    }
    fn powi(self, n: i32) -> Jet {
        let mut r = jet(1.0);
        for _ in 0..n.unsigned_abs() {
            r *= self;
        }
        if n < 0 { r.recip() } else { r }
    }
    fn powf(self, n: Jet) -> Jet {
        (n * self.ln()).exp()
    }
    fn sqrt(self) -> Jet {
        if self.v.f() == 0.0 {
            return jet(0.0);
        }
        let a = dd(self.v.f().sqrt());
        let r = (a + self.v / a) / dd(2.0);
        let r = (r + self.v / r) / dd(2.0);
        self.via(r, dd(0.5) / r)
    }
    fn exp(self) -> Jet {
        let e = exp(self.v);
        self.via(e, e)
    }
    fn exp2(self) -> Jet {
        (self * jet(2.0).ln()).exp()
    }
    fn ln(self) -> Jet {
        let mut r = dd(self.v.f().ln());
        for _ in 0..2 {
            r = r + self.v * exp(-r) - dd(1.0);
        }
        self.via(r, dd(1.0) / self.v)
    }
    fn log(self, b: Jet) -> Jet {
        self.ln() / b.ln()
    }
    fn log2(self) -> Jet {
        self.log(jet(2.0))
    }
    fn log10(self) -> Jet {
        self.log(jet(10.0))
    }
    fn to_degrees(self) -> Jet {
        self * jet(180.0 / std::f64::consts::PI)
    }
    fn to_radians(self) -> Jet {
        self * jet(std::f64::consts::PI / 180.0)
    }
    fn max(self, o: Jet) -> Jet {
        if self < o { o } else { self }
    }
    fn min(self, o: Jet) -> Jet {
        if o < self { o } else { self }
    }
    fn abs_sub(self, o: Jet) -> Jet {
        (self - o).max(jet(0.0))
    }
    fn cbrt(self) -> Jet {
        self.signum() * (self.abs().ln() / jet(3.0)).exp()
    }
    fn hypot(self, o: Jet) -> Jet {
        (self * self + o * o).sqrt()
    }
    fn sin(self) -> Jet {
        let x = self.v.f();
        self.poor(x.sin(), x.cos())
    }
    fn cos(self) -> Jet {
        let x = self.v.f();
        self.poor(x.cos(), -x.sin())
    }
    fn tan(self) -> Jet {
        self.sin() / self.cos()
    }
    fn asin(self) -> Jet {
        let x = self.v.f();
        self.poor(x.asin(), 1.0 / (1.0 - x * x).sqrt())
    }
    fn acos(self) -> Jet {
        let x = self.v.f();
        self.poor(x.acos(), -1.0 / (1.0 - x * x).sqrt())
    }
    fn atan(self) -> Jet {
        let x = self.v.f();
        self.poor(x.atan(), 1.0 / (1.0 + x * x))
    }
    fn atan2(self, o: Jet) -> Jet {
        let (y, x) = (self.v.f(), o.v.f());
        let s = x * x + y * y;
        op(dd(y.atan2(x)), self.d * dd(x / s) - o.d * dd(y / s))
    }
    fn sin_cos(self) -> (Jet, Jet) {
        (self.sin(), self.cos())
    }
    fn exp_m1(self) -> Jet {
        self.exp() - jet(1.0)
    }
    fn ln_1p(self) -> Jet {
        (self + jet(1.0)).ln()
    }
    fn sinh(self) -> Jet {
        (self.exp() - (-self).exp()) / jet(2.0)
    }
    fn cosh(self) -> Jet {
        (self.exp() + (-self).exp()) / jet(2.0)
    }
    fn tanh(self) -> Jet {
        self.sinh() / self.cosh()
    }
    fn asinh(self) -> Jet {
        (self + (self * self + jet(1.0)).sqrt()).ln()
    }
    fn acosh(self) -> Jet {
        (self + (self * self - jet(1.0)).sqrt()).ln()
    }
    fn atanh(self) -> Jet {
        ((jet(1.0) + self) / (jet(1.0) - self)).ln() / jet(2.0)
    }
}
impl Value for Jet {}
