//! Double-double arithmetic (about 31 decimal digits) for reference values.
use std::ops::{Add, Div, Mul, Neg, Sub};

#[derive(Clone, Copy, Debug)]
pub struct Dd(pub f64, pub f64);

fn two_sum(a: f64, b: f64) -> (f64, f64) {
    let s = a + b;
    let t = s - a;
    (s, (a - (s - t)) + (b - t))
}
fn split(a: f64) -> (f64, f64) {
    let t = 134_217_729.0 * a;
    let hi = t - (t - a);
    (hi, a - hi)
}
fn two_prod(a: f64, b: f64) -> (f64, f64) {
    let p = a * b;
    let (ah, al) = split(a);
    let (bh, bl) = split(b);
    (p, ((ah * bh - p) + ah * bl + al * bh) + al * bl)
}

pub fn dd(a: f64) -> Dd {
    Dd(a, 0.0)
}
impl Dd {
    pub fn f(self) -> f64 {
        self.0 + self.1
    }
    pub fn abs(self) -> f64 {
        self.f().abs()
    }
}
impl Add for Dd {
    type Output = Dd;
    fn add(self, o: Dd) -> Dd {
        let (s, e) = two_sum(self.0, o.0);
        let (t, f) = two_sum(self.1, o.1);
        let (s, e) = two_sum(s, e + t);
        let (s, e) = two_sum(s, e + f);
        Dd(s, e)
    }
}
impl Neg for Dd {
    type Output = Dd;
    fn neg(self) -> Dd {
        Dd(-self.0, -self.1)
    }
}
impl Sub for Dd {
    type Output = Dd;
    fn sub(self, o: Dd) -> Dd {
        self + -o
    }
}
impl Mul for Dd {
    type Output = Dd;
    fn mul(self, o: Dd) -> Dd {
        let (p, e) = two_prod(self.0, o.0);
        let (s, e) = two_sum(p, e + (self.0 * o.1 + self.1 * o.0));
        Dd(s, e)
    }
}
impl Div for Dd {
    type Output = Dd;
    fn div(self, o: Dd) -> Dd {
        let q1 = self.0 / o.0;
        let r = self - dd(q1) * o;
        let q2 = r.0 / o.0;
        let r = r - dd(q2) * o;
        let q3 = r.0 / o.0;
        dd(q1) + dd(q2) + dd(q3)
    }
}
