//! Recording day count and interpolator, plugged into the library through its
//! public traits: they see every call a curve makes and choose its yields.
use crate::math::Fl;
use crate::meanwhile::meanwhile;
use crate::rt::*;
use qlab_error::{ComputeError, InterpolationError, QLabResult};
use qlab_math::interpolation::Interpolator;
use qlab_math::value::Value;
use qlab_time::date::Date;
use qlab_time::day_count::DayCount;
use std::cell::RefCell;
use std::marker::PhantomData;

#[derive(Default)]
pub struct Log {
    pub counted: Vec<(i64, i64)>,
    pub fits: Vec<Vec<(f64, f64)>>,
    pub asked: Vec<f64>,
    /// refuse the pair (settlement, this day)
    pub refuse_day: Option<i64>,
    pub refuse_fit: Option<u8>,
}
type YieldFn = Box<dyn Fn(f64) -> Result<f64, u8>>;
thread_local! {
    pub static LOG: RefCell<Log> = RefCell::default();
    static YIELD: RefCell<YieldFn> = RefCell::new(Box::new(|_| Ok(0.0)));
}
pub fn set_yield(f: impl Fn(f64) -> Result<f64, u8> + 'static) {
    YIELD.with(|y| *y.borrow_mut() = Box::new(f));
}
pub fn take_log() -> Log {
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}
pub fn plan(f: impl FnOnce(&mut Log)) {
    LOG.with(|l| f(&mut l.borrow_mut()));
}

/// Fraction = number of days (exact), every call recorded.
#[derive(Clone, Copy)]
pub struct RecD;
impl DayCount for RecD {
    fn calculate_day_count_fraction<V: Value>(a: Date, b: Date) -> QLabResult<V> {
        meanwhile();
        let (x, y) = (qn(a), qn(b));
        LOG.with(|l| {
            let mut l = l.borrow_mut();
            l.counted.push((x, y));
            if l.refuse_day == Some(y) {
                return Err(ComputeError::InvalidInput(format!("RecD refuses {y}").into()).into());
            }
            V::from_i64(y - x).ok_or_else(|| ComputeError::ZeroDivisionError.into())
        })
    }
}

/// A day count that does not add up over adjacent periods.
#[derive(Clone, Copy)]
pub struct Odd;
impl DayCount for Odd {
    fn calculate_day_count_fraction<V: Value>(a: Date, b: Date) -> QLabResult<V> {
        meanwhile();
        let (x, y) = (qn(a), qn(b));
        if x > y {
            return Err(ComputeError::InvalidInput("Odd refuses".into()).into());
        }
        let hump = if x == y { 0.0 } else { 0.05 * (y * 31 % 7) as f64 - 0.1 * (x * 17 % 5) as f64 };
        V::from_f64(((y - x) as f64 + hump) / 365.0).ok_or_else(|| ComputeError::ZeroDivisionError.into())
    }
}

#[derive(Default)]
pub struct RecI<V>(PhantomData<V>);
pub fn err<V>(k: u8, x: V) -> InterpolationError<V> {
    match k {
        0 => InterpolationError::PointOrderError,
        1 => InterpolationError::OutOfLowerBound(x),
        2 => InterpolationError::OutOfUpperBound(x),
        _ => InterpolationError::InsufficientPointsError(0),
    }
}
impl<V: Fl> Interpolator for RecI<V> {
    type Value = V;
    fn try_fit(self, p: &[(V, V)]) -> Result<Self, InterpolationError<V>> {
        meanwhile();
        LOG.with(|l| {
            let mut l = l.borrow_mut();
            l.fits.push(p.iter().map(|t| (t.0.into(), t.1.into())).collect());
            match l.refuse_fit {
                Some(k) => Err(err(k, V::of(0.0))),
                None => Ok(self),
            }
        })
    }
    fn try_value(&self, t: V) -> Result<V, InterpolationError<V>> {
        meanwhile();
        let x: f64 = t.into();
        LOG.with(|l| l.borrow_mut().asked.push(x));
        YIELD.with(|y| (y.borrow())(x)).map(V::of).map_err(|k| err(k, t))
    }
}
