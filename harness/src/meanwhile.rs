//! What a user's own calendar, day count or interpolator may do while the
//! library asks it: ask the library something else.  Whatever it asks there
//! must be answered as always, and must not disturb the question under way.
use crate::civil::num;
use crate::rt::*;
use calendar::jointcalendar::JointCalendar;
use calendar::Calendar as _;
use qlab_instrument::bond::Bond;
use qlab_math::interpolation::linear::Linear;
use qlab_math::interpolation::spline::catmull_rom::CatmullRom;
use qlab_math::interpolation::spline::hermite::Hermite;
use qlab_math::interpolation::spline::natural_cubic::NaturalCubic;
use qlab_math::interpolation::Interpolator;
use qlab_termstructure::yield_curve::YieldCurve;
use qlab_time::date_rolling::DateRolling;
use qlab_time::day_count::{act_360::Act360, act_365::Act365, thirty_360::Thirty360, DayCount};
use qlab_time::frequency::Frequency;
use qlab_time::period::{days::Days, months::Months, years::Years};
use std::cell::{Cell, RefCell};

const ITEMS: usize = 12;
thread_local! {
    static EXPECTED: RefCell<Vec<u64>> = const { RefCell::new(vec![]) };
    static BUSY: Cell<bool> = const { Cell::new(false) };
    static ASKED: Cell<u64> = const { Cell::new(0) };
    static TURN: Cell<u64> = const { Cell::new(0) };
}

fn item(k: usize) -> u64 {
    let d = |y, m, d| qd(num(y, m, d));
    let n = |y, m, d| nd(num(y, m, d));
    let target = calendar::target::Target;
    let joint = || JointCalendar::new(JointCalendar::new(calendar::target::Target, calendar::japan::Japan), calendar::israel::Israel);
    let s = d(2024, 1, 15);
    let knots = [(0.0, 1.0), (1.0, -2.0), (2.5, 0.5), (3.0, 4.0)];
    let curve = || YieldCurve::<Act365, Linear<f64>>::new(s, &[s, d(2030, 3, 1), d(2041, 7, 9)], &[0.01, 0.03, 0.02]).map_err(|e| e.to_string());
    let bits = |x: f64| x.to_bits();
    match k {
        0 => target.business_days_between(n(2024, 3, 25), n(2024, 4, 20), Some(false), Some(true)) as u64,
        1 => hash((nn(calendar::japan::Japan.end_of_month(n(2024, 12, 5))), nn(target.last_day_of_month(n(2023, 2, 5))))),
        2 => hash(s.checked_roll(Months::new(2), &joint(), DateRolling::ModifiedFollowing)),
        3 => hash(d(2024, 3, 30).checked_roll(Days::new(0), &target, DateRolling::ModifiedFollowing)),
        4 => hash((d(2024, 2, 29).checked_roll(Years::new(3), &target, DateRolling::Preceding), d(2024, 6, 1).weekend_roll())),
        5 => hash([Act365::calculate_day_count_fraction::<f64>(s, d(2025, 5, 5)), Act360::calculate_day_count_fraction(d(2025, 5, 5), s), Thirty360::calculate_day_count_fraction(s, d(2025, 5, 31))].map(|x| x.map_or(1, bits))),
        6 => hash([NaturalCubic::default().try_fit(&knots).map_or(2, |f| f.try_value(1.7).map_or(3, bits)), CatmullRom::default().try_fit(&knots).map_or(2, |f| f.try_value(1.7).map_or(3, bits))]),
        7 => hash([Linear::default().try_fit(&knots).map_or(2, |f| f.try_value(2.75).map_or(3, bits)), Hermite::try_new(&knots.map(|(x, y)| (x, y, x - y))).map_or(2, |f| f.try_value(0.25).map_or(3, bits))]),
        8 => curve().map_or(4, |c| hash([c.discount_factor(s, d(2029, 5, 5)).map_or(5, bits), c.discount_factor(d(2025, 5, 5), d(2040, 1, 1)).map_or(6, bits), c.discount_factor(d(2041, 1, 1), d(2050, 1, 1)).map_or(7, bits)])),
        9 => {
            let b = Bond::<f64>::new("N", d(2024, 2, 1), d(2024, 7, 15), d(2030, 1, 15), d(2030, 9, 1), Frequency::SA, 0.04, 250.0);
            b.map_or(8, |b| curve().map_or(4, |c| b.discounted_value(d(2024, 8, 8), &c).map_or(9, bits)))
        }
        10 => hash((target.easter_monday(2024), target.orthodox_easter_monday(2025), joint().is_business_day(n(2024, 4, 1)), joint().business_days_between(n(2024, 5, 20), n(2024, 4, 1), None, None))),
        // refusals as well
        _ => hash((Thirty360::calculate_day_count_fraction::<f64>(d(2025, 5, 5), s).is_err(), Linear::default().try_fit(&knots).map_or(2, |f| f.try_value(-1.0).map_or(3, bits)), CatmullRom::default().try_fit(&knots[..2]).is_err())),
    }
}

/// To be called before any question: what the answers are when nothing is under way.
pub fn prepare(c: &mut Ctx) {
    c.guard(|| "questions asked later from inside a user's own types".into(), |_| {
        let answers = (0..ITEMS).map(item).collect();
        EXPECTED.with_borrow_mut(|e| *e = answers);
    });
}

/// Called by the monitors' calendars, day counts and interpolators when they are asked.
pub fn meanwhile() {
    let t = TURN.get();
    TURN.set(t + 1);
    // often at first, then now and again
    if BUSY.get() || t % 29 != 0 && t % 64 > 2 || ASKED.get() > 100_000 && t % 4096 != 0 {
        return;
    }
    struct Done;
    impl Drop for Done {
        fn drop(&mut self) {
            BUSY.set(false);
        }
    }
    let k = hash(t) as usize % ITEMS;
    let Some(want) = EXPECTED.with_borrow(|e| e.get(k).copied()) else { return };
    BUSY.set(true);
    let _done = Done;
    let got = item(k);
    ASKED.set(ASKED.get() + 1);
    assert!(got == want, "{MONITOR} question {k} asked from inside a user's calendar, day count or interpolator was answered {got:x}, on its own {want:x}");
}

/// Writes the number of such questions down.
pub fn settle(c: &mut Ctx) {
    c.count("questions asked from inside a user's own types", ASKED.get());
    EXPECTED.with_borrow_mut(Vec::clear);
}
