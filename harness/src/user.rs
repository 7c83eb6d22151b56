//! C10: calendars written by the library's users.
use crate::cal::day;
use crate::civil::{self, from_num, num, wd, Ymd};
use crate::date::{any_day, maxn, minn};
use crate::meanwhile::meanwhile;
use crate::rt::*;
use calendar::jointcalendar::JointCalendar;
use calendar::Calendar as Cal;
use chrono::{Datelike, NaiveDate, Weekday};
use qlab_time::calendar::Calendar as Bridge;
use std::cell::{Cell, RefCell};
use std::fmt;

/// The user's rules: a truth table, restricted to a window of days he knows.
struct Rules {
    seed: u64,
    run: i64,
    thr: u64,
    window: Cell<(i64, i64)>,
    asked: RefCell<Vec<i64>>,
}

impl Rules {
    fn open(&self, n: i64) -> bool {
        !(hash((self.seed, n.div_euclid(self.run))) < self.thr || hash((self.seed, n, 1u8)) < self.thr / 3)
    }
    fn answer(&self, n: i64) -> bool {
        self.asked.borrow_mut().push(n);
        meanwhile();
        let (from, to) = self.window.get();
        assert!(
            (from..=to).contains(&n),
            "{MONITOR} the user's rules were consulted on {}, outside {} to {}",
            day(n),
            day(from),
            day(to)
        );
        self.open(n)
    }
}

impl fmt::Debug for Rules {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("user rules")
    }
}

/// Supplies the one required method.
#[derive(Debug)]
struct Plain(Rules);
impl Cal for Plain {
    fn is_business_day(&self, date: NaiveDate) -> bool {
        self.0.answer(nn(date))
    }
}

/// Supplies its own weekend as well.
#[derive(Debug)]
struct Weekended(Rules);
impl Cal for Weekended {
    fn is_weekend(&self, date: NaiveDate) -> bool {
        matches!(date.weekday(), Weekday::Fri | Weekday::Sat)
    }
    fn is_business_day(&self, date: NaiveDate) -> bool {
        self.0.answer(nn(date))
    }
}

/// Supplies business days and holidays, consistently.
#[derive(Debug)]
struct Both(Rules);
impl Cal for Both {
    fn is_business_day(&self, date: NaiveDate) -> bool {
        self.0.answer(nn(date))
    }
    fn is_holiday(&self, date: NaiveDate) -> bool {
        !self.0.answer(nn(date))
    }
}

/// Wraps another calendar behind its trait object.
#[derive(Debug)]
struct Boxed(Box<dyn Cal>);
impl Cal for Boxed {
    fn is_business_day(&self, date: NaiveDate) -> bool {
        self.0.is_business_day(date)
    }
}

/// Implements the date library's own trait, without the calendar crate.
struct Direct(Rules);
impl Bridge for Direct {
    fn is_business_day(&self, date: qlab_time::date::Date) -> bool {
        self.0.answer(qn(date))
    }
}

fn rules(r: &mut Rng, window: (i64, i64)) -> Rules {
    let density = *r.pick(&[0.0, 0.1, 0.4, 0.8]);
    Rules {
        seed: r.next(),
        run: *r.pick(&[1, 2, 7, 40]),
        thr: (density * u64::MAX as f64) as u64,
        window: Cell::new(window),
        asked: RefCell::default(),
    }
}

fn parts(c: &mut Ctx, name: &str, cal: &dyn Cal, weekend: fn(i64) -> bool, open: &dyn Fn(i64) -> bool, n: i64) {
    c.guard(|| format!("{name} on {}", day(n)), |c| {
        let d = nd(n);
        let Ymd(y, m, dd) = from_num(n);
        let (b, h, w) = (cal.is_business_day(d), cal.is_holiday(d), cal.is_weekend(d));
        c.case(!open(n) || wd(n) >= 5, hash((name, n)));
        c.check(b == open(n) && h != b, || format!("{name} {}: business day = {b}, holiday = {h}, the user's rule says open = {}", day(n), open(n)));
        c.check(w == weekend(n), || format!("{name} {}: weekend = {w}", day(n)));
        let got = cal.naive_date_to_dkmy(d);
        let want = (dd as u32, wd(n) as u32, m as u32, y as i32, civil::ordinal(y, m, dd) as u32);
        c.check((got.0, got.1.num_days_from_monday(), got.2, got.3, got.4) == want, || {
            format!("{name} {}: split into {got:?}, expected {want:?} (day, weekday from Monday, month, year, day of year)", day(n))
        });
        let last = nn(cal.last_day_of_month(d));
        c.check(last == num(y, m, civil::dim(y, m)), || format!("{name} {}: last day of the month is {}", day(n), day(last)));
    });
}

fn derived(c: &mut Ctx, name: &str, cal: &dyn Cal, r: &Rules, joint: bool) {
    let (a, b) = r.window.get();
    for (f, l) in [(None, None), (Some(true), Some(true)), (Some(false), Some(false)), (Some(false), Some(true))] {
        for (x, y) in [(a, b), (b, a)] {
            c.guard(|| format!("{name} between {} and {} flags {f:?}/{l:?}", day(x), day(y)), |c| {
                r.asked.borrow_mut().clear();
                let got = cal.business_days_between(nd(x), nd(y), f, l);
                let (inc_f, inc_l) = (f.unwrap_or(true), l.unwrap_or(false));
                let mut want = if a == b {
                    i64::from(inc_f && inc_l && r.open(a))
                } else {
                    (a..=b).filter(|n| (*n != a || inc_f) && (*n != b || inc_l) && r.open(*n)).count() as i64
                };
                if x > y {
                    want = -want;
                }
                c.case(true, hash((name, x, y, f, l, r.seed)));
                c.check(got == want, || format!("{name}: {got} business days between {} and {} (flags {f:?}/{l:?}), counting gives {want}", day(x), day(y)));
                c.count("consultations of user rules recorded", r.asked.borrow().len() as u64);
            });
        }
    }
    // business end of the month the window ends in
    let Ymd(y, m, _) = from_num(b);
    let (first, end) = (num(y, m, 1), num(y, m, civil::dim(y, m)));
    if b == end && (a..=b).any(|n| r.open(n)) {
        c.guard(|| format!("{name} end of month of {}", day(b)), |c| {
            // any day of that month may be asked about, on the way to the answer
            r.window.set((a.min(first), b));
            let got = nn(cal.end_of_month(nd(first.max(a))));
            let want = (a..=b).rev().find(|n| r.open(*n)).unwrap();
            c.case(want != b, hash((name, b, r.seed, "eom")));
            c.check(got == want, || format!("{name}: business end of month of {} is {}, expected {}", day(b), day(got), day(want)));
            c.count(if joint { "business month ends (joint)" } else { "business month ends" }, 1);
        });
    }
}

fn sat_sun(n: i64) -> bool {
    wd(n) >= 5
}
fn fri_sat(n: i64) -> bool {
    wd(n) == 4 || wd(n) == 5
}

pub fn c10(c: &mut Ctx) {
    c.rule = "calendar written by the user (required method only, own weekend, own holidays, behind a trait object, joined, or of the date library's trait) x days of the whole representable range, intervals and month ends, with the consultations of the user's rules monitored; non-trivial: a closed or weekend day, a count, a month end that moves".into();
    c.require(20_000);
    crate::meanwhile::prepare(c);
    for t in 0..c.n(4000, 80_000) {
        // a window of days: anywhere, at the ends of the range, ending at a month's end
        let len = *c.rng.pick(&[0, 1, 2, 7, 31, 62, 200]);
        let b = match c.rng.below(8) {
            0 => maxn(),
            1 => minn() + len,
            _ => any_day(&mut c.rng).max(minn() + len + 400).min(maxn() - 400),
        };
        let b = if c.rng.chance(0.6) && b < maxn() - 40 {
            let Ymd(y, m, _) = from_num(b);
            num(y, m, civil::dim(y, m))
        } else {
            b
        };
        let w = (b - len, b);
        let kind = t % 5;
        let r = rules(&mut c.rng, w);
        let (seed, run, thr) = (r.seed, r.run, r.thr);
        let open = move |n: i64| Rules { seed, run, thr, window: Cell::new(w), asked: RefCell::default() }.open(n);
        let days: Vec<i64> = (0..4).map(|_| c.rng.range(w.0, w.1)).chain([w.0, w.1]).collect();
        match kind {
            0 => {
                let k = Plain(r);
                days.iter().for_each(|n| parts(c, "calendar with only the required method", &k, sat_sun, &open, *n));
                derived(c, "calendar with only the required method", &k, &k.0, false);
            }
            1 => {
                let k = Weekended(r);
                days.iter().for_each(|n| parts(c, "calendar with its own weekend", &k, fri_sat, &open, *n));
                derived(c, "calendar with its own weekend", &k, &k.0, false);
            }
            2 => {
                let k = Both(r);
                days.iter().for_each(|n| parts(c, "calendar with its own holidays", &k, sat_sun, &open, *n));
                derived(c, "calendar with its own holidays", &k, &k.0, false);
            }
            3 => {
                // the intersection of two tables, one of them behind a trait object
                let always = Rules { seed: 0, run: 1, thr: 0, window: Cell::new((minn(), maxn())), asked: RefCell::default() };
                let k = JointCalendar::new(Plain(r), Boxed(Box::new(Weekended(always))));
                days.iter().for_each(|n| parts(c, "user calendar joined with a boxed one", &k, sat_sun, &open, *n));
                derived(c, "user calendar joined with a boxed one", &k, &k.c1.0, true);
            }
            _ => {
                let k = Direct(r);
                let p = Plain(Rules { seed, run, thr, window: Cell::new(w), asked: RefCell::default() });
                for n in days {
                    c.guard(|| format!("calendar of the date library's trait on {}", day(n)), |c| {
                        let (b, h) = (k.is_business_day(qd(n)), k.is_holiday(qd(n)));
                        let (pb, ph) = (Bridge::is_business_day(&p, qd(n)), Bridge::is_holiday(&p, qd(n)));
                        c.case(!open(n), hash(("direct", n, seed)));
                        c.check(b == open(n) && h != b, || format!("{}: business day = {b}, holiday = {h} by the default of the date library's trait, the rule says open = {}", day(n), open(n)));
                        c.check(pb == open(n) && ph != pb, || format!("{}: business day = {pb}, holiday = {ph} seen through the date library, the rule says open = {}", day(n), open(n)));
                    });
                }
            }
        }
        c.count("user calendars", 1);
    }
    crate::meanwhile::settle(c);
    // Easter is offered to user calendars too
    let k = Plain(Rules { seed: 1, run: 1, thr: 0, window: Cell::new((minn(), maxn())), asked: RefCell::default() });
    for y in 1901..=2199i64 {
        c.guard(|| format!("user calendar, Easter of {y}"), |c| {
            let (e, o) = (i64::from(k.easter_monday(y as i32)), i64::from(k.orthodox_easter_monday(y as i32)));
            let f = |s: i64| s + 1 - num(y, 1, 1) + 1;
            let (we, wo) = (f(civil::easter_sunday(y)), f(civil::orthodox_easter_sunday(y)));
            c.enumerated(true);
            c.check((e, o) == (we, wo), || format!("{y}: Easter Mondays {e}, {o}, computus says {we}, {wo}"));
        });
    }
    c.sample(|| "windows of 0 to 200 days at both ends of the range, at month ends and anywhere; rules fail when asked outside the window".into());
}
