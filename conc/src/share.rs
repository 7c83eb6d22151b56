//! Compile-time side of R01: what users put behind an Arc must be Send + Sync.
use calendar::jointcalendar::JointCalendar;
use calendar::{target::Target, unitedstates::UnitedStates};
use qlab_error::{ComputeError, InterpolationError, QLabError};
use qlab_instrument::bond::Bond;
use qlab_math::interpolation::linear::Linear;
use qlab_math::interpolation::spline::catmull_rom::CatmullRom;
use qlab_math::interpolation::spline::hermite::Hermite;
use qlab_math::interpolation::spline::natural_cubic::NaturalCubic;
use qlab_termstructure::yield_curve::YieldCurve;
use qlab_time::date::Date;
use qlab_time::date_rolling::DateRolling;
use qlab_time::day_count::{act_360::Act360, act_365::Act365, thirty_360::Thirty360};
use qlab_time::frequency::Frequency;
use qlab_time::period::{days::Days, months::Months, years::Years};

fn shareable<T: Send + Sync + 'static>() {}

pub fn all() {
    shareable::<JointCalendar<Target, UnitedStates>>();
    shareable::<Date>();
    shareable::<(Days, Months, Years)>();
    shareable::<(DateRolling, Frequency)>();
    shareable::<(Act360, Act365, Thirty360)>();
    shareable::<(Linear<f64>, Linear<f32>)>();
    shareable::<(NaturalCubic<f64>, NaturalCubic<f32>)>();
    shareable::<(CatmullRom<f64>, CatmullRom<f32>)>();
    shareable::<(Hermite<f64>, Hermite<f32>)>();
    shareable::<YieldCurve<Act365, Linear<f64>>>();
    shareable::<YieldCurve<Thirty360, NaturalCubic<f32>>>();
    shareable::<(Bond<f64>, Bond<f32>)>();
    shareable::<(QLabError, ComputeError, InterpolationError<f64>)>();
}
