//! D01–D05: dates, periods, rolling, day counts.
use crate::cal::day;
use crate::civil::{self, from_num, num, wd, Ymd};
use crate::meanwhile::meanwhile;
use crate::rt::*;
use qlab_error::{ComputeError, QLabError, QLabResult};
use qlab_time::calendar::Calendar;
use qlab_time::date::Date;
use qlab_time::date_rolling::DateRolling;
use qlab_time::day_count::{act_360::Act360, act_365::Act365, thirty_360::Thirty360, DayCount};
use qlab_time::period::{days::Days, months::Months, years::Years, Period};
use std::cell::RefCell;

pub fn minn() -> i64 {
    num(-262_143, 1, 1)
}
pub fn maxn() -> i64 {
    num(262_142, 12, 31)
}

pub fn iso(y: Ymd) -> String {
    if (0..=9999).contains(&y.0) {
        format!("{:04}-{:02}-{:02}", y.0, y.1, y.2)
    } else {
        format!("{:+05}-{:02}-{:02}", y.0, y.1, y.2)
    }
}

/// A day number: mostly ordinary, sometimes near month/year ends or range ends.
pub fn any_day(r: &mut Rng) -> i64 {
    match r.below(10) {
        0 => r.range(minn(), maxn()),
        1 => minn() + r.range(0, 800),
        2 => maxn() - r.range(0, 800),
        3 => {
            let y = r.range(-1000, 4000);
            let m = r.range(1, 12);
            num(y, m, civil::dim(y, m)) - r.range(0, 2)
        }
        4 => {
            let y = 4 * r.range(-100, 900);
            num(y, 2, 28) + r.range(0, 2)
        }
        5 => num(r.range(1900, 2200), r.range(1, 12), 1) + r.range(-3, 3),
        _ => r.range(num(1900, 1, 1), num(2200, 1, 1)),
    }
}

fn faithful(c: &mut Ctx, n: i64, y: Ymd) {
    let Some(d) = Date::from_ymd(y.0 as i32, y.1 as u32, y.2 as u32) else {
        c.violate(format!("{}: refused although it exists", iso(y)));
        return;
    };
    let got = (i64::from(d.year()), i64::from(d.month()), i64::from(d.day()));
    c.check(got == (y.0, y.1, y.2), || format!("{}: reports year/month/day {got:?}", iso(y)));
    c.check(d.leap_year() == civil::leap(y.0), || format!("{}: leap_year = {}", iso(y), d.leap_year()));
    c.check(i64::from(d.serial_date()) == n, || format!("{}: serial_date {} instead of {n}", iso(y), d.serial_date()));
}

fn text_and_neighbours(c: &mut Ctx, n: i64) {
    let y = from_num(n);
    let d = qd(n);
    let t = d.to_string();
    c.check(t == iso(y), || format!("{}: displayed as {t}", iso(y)));
    let via: Date = nd(n).into();
    c.check(via == d && hash(via) == hash(d), || format!("{}: the date made from chrono's differs", iso(y)));
    for (name, got, k) in [("succ_opt", d.succ_opt(), 1), ("pred_opt", d.pred_opt(), -1)] {
        let want = n + k;
        let exp = (minn()..=maxn()).contains(&want).then_some(want);
        c.check(got.map(qn) == exp, || format!("{}: {name} gives {got:?}", iso(y)));
        if let Some(o) = got {
            let (less, diff) = if k == 1 { (d < o, o - d) } else { (o < d, d - o) };
            c.check(less && diff == 1 && o != d, || format!("{}: order or difference with its {name} is wrong", iso(y)));
        }
    }
}

pub fn d01(c: &mut Ctx) {
    c.rule = "dates built and read back: all days of 1600-2400, five days of every representable year (all days of the range in the thorough tier), random dates and pairs, and candidate triples that may not exist; non-trivial: month/year ends, leap days, impossible triples, pairs".into();
    c.require(100_000);
    // every representable year: year ends and February ends
    let mut n0 = minn();
    for y in -262_143i64..=262_142 {
        let l = i64::from(civil::leap(y));
        let y31 = n0 + 364 + l;
        c.guard(|| format!("year {y}"), |c| {
            for (n, m, d) in [(n0, 1, 1), (n0 + 58, 2, 28), (n0 + 59 + l, 3, 1), (y31, 12, 31)] {
                faithful(c, n, Ymd(y, m, d));
                c.enumerated(m != 1);
            }
            if l == 1 {
                faithful(c, n0 + 59, Ymd(y, 2, 29));
            } else {
                c.check(Date::from_ymd(y as i32, 2, 29).is_none(), || format!("29 February {y} accepted"));
            }
            c.enumerated(true);
        });
        n0 = y31 + 1;
    }
    c.count("years checked", 524_286);
    let (a, b) = if c.thorough() { (minn(), maxn()) } else { (num(1600, 1, 1), num(2400, 12, 31)) };
    let mut n = a;
    let mut cur = from_num(a);
    while n <= b {
        c.guard(|| format!("date {}", iso(cur)), |c| {
            faithful(c, n, cur);
            c.enumerated(cur.2 >= 28 || cur.2 == 1);
        });
        cur.2 += 1;
        if cur.2 > civil::dim(cur.0, cur.1) {
            cur = if cur.1 == 12 { Ymd(cur.0 + 1, 1, 1) } else { Ymd(cur.0, cur.1 + 1, 1) };
        }
        n += 1;
    }
    c.count("consecutive days checked", (b - a + 1) as u64);
    for n in num(1890, 1, 1)..=num(2210, 1, 1) {
        c.guard(|| format!("date {}", day(n)), |c| {
            text_and_neighbours(c, n);
            c.enumerated(false);
        });
    }
    let mut ends: Vec<i64> = (0..800).flat_map(|k| [minn() + k, maxn() - k]).collect();
    ends.extend((-15..15).flat_map(|k| [num(0, 1, 1) + k, num(10_000, 1, 1) + k, num(1, 1, 1) + k, num(-9999, 1, 1) + k]));
    for n in ends {
        c.guard(|| format!("date {}", iso(from_num(n))), |c| {
            text_and_neighbours(c, n);
            c.enumerated(true);
        });
    }
    for _ in 0..c.n(200_000, 4_000_000) {
        let (x, y) = (any_day(&mut c.rng), any_day(&mut c.rng));
        let y = if c.rng.chance(0.2) { x + c.rng.range(-2, 2) } else { y }.clamp(minn(), maxn());
        c.guard(|| format!("{} and {}", iso(from_num(x)), iso(from_num(y))), |c| {
            let (a, b) = (qd(x), qd(y));
            c.case(true, hash((x, y)));
            let name = || format!("{} / {}", iso(from_num(x)), iso(from_num(y)));
            c.check(a - b == x - y, || format!("{}: difference {} instead of {}", name(), a - b, x - y));
            c.check(a.cmp(&b) == x.cmp(&y) && a.partial_cmp(&b) == Some(x.cmp(&y)), || format!("{}: ordered {:?}", name(), a.cmp(&b)));
            c.check((a == b) == (x == y), || format!("{}: equality {}", name(), a == b));
            c.check(x != y || hash(a) == hash(b), || format!("{}: equal dates hash differently", name()));
            text_and_neighbours(c, x);
        });
    }
    // triples which need not exist
    let ys = [-262_144i64, -262_143, -4, -1, 0, 1, 4, 100, 400, 1900, 2000, 2023, 2024, 2100, 262_142, 262_143, i64::from(i32::MIN), i64::from(i32::MAX)];
    let mut ms: Vec<u32> = (0..=14).collect();
    ms.extend([u32::MAX, 256 + 1, 65_536 + 2, 1 << 31]);
    let mut ds: Vec<u32> = (0..=33).collect();
    ds.extend([u32::MAX, 256 + 1, 65_536 + 2, 1 << 31]);
    for y in ys {
        for &m in &ms {
            for &d in &ds {
                c.guard(|| format!("from_ymd({y}, {m}, {d})"), |c| {
                    let want = (-262_143..=262_142).contains(&y) && civil::valid(y, i64::from(m), i64::from(d));
                    let got = Date::from_ymd(y as i32, m, d);
                    c.enumerated(!want);
                    c.check(got.is_some() == want, || format!("from_ymd({y}, {m}, {d}) = {got:?}"));
                });
            }
        }
    }
    for _ in 0..c.n(200_000, 2_000_000) {
        let (y, m, d) = (c.rng.range(-3000, 6000), c.rng.range(0, 13), c.rng.range(0, 33));
        c.guard(|| format!("from_ymd({y}, {m}, {d})"), |c| {
            let got = Date::from_ymd(y as i32, m as u32, d as u32);
            let want = civil::valid(y, m, d);
            c.case(!want, hash((y, m, d)));
            c.check(got.is_some() == want, || format!("from_ymd({y}, {m}, {d}) = {got:?}"));
        });
    }
    c.sample(|| format!("2000-02-29 serial {}", qd(num(2000, 2, 29)).serial_date()));
    c.sample(|| "-262143-01-01 and 262142-12-31 are the ends of the range".into());
}

/// A calendar whose answers must not matter.
struct Unasked;
impl Calendar for Unasked {
    fn is_business_day(&self, date: Date) -> bool {
        meanwhile();
        hash(qn(date)) % 3 == 0
    }
}

fn in_range(n: i128) -> Option<i64> {
    (i128::from(minn())..=i128::from(maxn())).contains(&n).then_some(n as i64)
}

fn month_move(n: i64, k: i64) -> Option<i64> {
    let t = civil::add_months(from_num(n), k);
    (-262_143..=262_142).contains(&t.0).then(|| t.num())
}

fn year_move(n: i64, k: i64) -> Option<i64> {
    let t = from_num(n);
    let y = t.0 + k;
    if !(-262_143..=262_142).contains(&y) {
        return None;
    }
    let d = if t.1 == 2 && t.2 == 29 && !civil::leap(y) { 28 } else { t.2 };
    Some(num(y, t.1, d))
}

fn moved(c: &mut Ctx, what: impl Fn() -> String, n: i64, got: Option<Date>, want: Option<i64>) {
    let ok = match (got, want) {
        (None, None) => true,
        (Some(g), Some(w)) => qn(g) == w && i64::from(g.serial_date()) == w,
        _ => false,
    };
    c.check(ok, || format!("{} from {}: {got:?}, expected {:?}", what(), iso(from_num(n)), want.map(|w| iso(from_num(w)))));
}

fn small_or_huge(r: &mut Rng, max: u64) -> u64 {
    match r.below(12) {
        0 => max - r.below(3),
        1 => max / 2 + r.below(5) - 2,
        2 => r.below(max),
        3 => 6_291_432u64.saturating_add_signed(r.range(-30, 30)).min(max),
        4 => r.below(192_000_000).min(max),
        5 => 1u64 << r.below(64 - max.leading_zeros() as u64),
        _ => r.below(1000).min(max),
    }
}

pub fn d02(c: &mut Ctx) {
    c.rule = "date x amount (days to 2^64-1, months to 2^32-1, years over i32), each added directly, through the period interface and through an unadjusted roll; non-trivial: the answer is none, or the day was clamped, or the move crosses a year".into();
    c.require(100_000);
    let step = |c: &mut Ctx, n: i64, kd: u64, km: u32, ky: i32| {
        let d = qd(n);
        let dd = Days::new(kd);
        let w = in_range(i128::from(n) + i128::from(kd));
        let what = |s: &'static str| move || format!("{s} {kd} days");
        moved(c, what("adding"), n, d.checked_add_days(dd), w);
        moved(c, what("period-adding"), n, Period::checked_add(dd, d), w);
        moved(c, what("rolling unadjusted"), n, d.checked_roll(dd, &Unasked, DateRolling::Unadjusted), w);
        let w2 = in_range(i128::from(n) - i128::from(kd));
        moved(c, what("subtracting"), n, d.checked_sub_days(dd), w2);
        c.case(w.is_none() || w2.is_none() || kd > 366, hash((n, kd, 1)));

        let what = |s: &'static str| move || format!("{s} {km} months");
        let mm = Months::new(km);
        let w = month_move(n, i64::from(km));
        moved(c, what("adding"), n, d.checked_add_months(mm), w);
        moved(c, what("period-adding"), n, Period::checked_add(mm, d), w);
        moved(c, what("rolling unadjusted"), n, d.checked_roll(mm, &Unasked, DateRolling::Unadjusted), w);
        let w2 = month_move(n, -i64::from(km));
        moved(c, what("subtracting"), n, d.checked_sub_months(mm), w2);
        let day = from_num(n).2;
        let clamped = w.is_some_and(|w| from_num(w).2 != day) || w2.is_some_and(|w| from_num(w).2 != day);
        if clamped {
            c.count("month moves clamped to the month's length", 1);
        }
        c.case(w.is_none() || w2.is_none() || clamped, hash((n, km, 2)));

        let what = |s: &'static str| move || format!("{s} {ky} years");
        let yy = Years::new(ky);
        let w = year_move(n, i64::from(ky));
        moved(c, what("adding"), n, d.checked_add_years(yy), w);
        moved(c, what("period-adding"), n, Period::checked_add(yy, d), w);
        moved(c, what("rolling unadjusted"), n, d.checked_roll(yy, &Unasked, DateRolling::Unadjusted), w);
        let clamped = w.is_some_and(|w| from_num(w).2 != day);
        if clamped {
            c.count("29 February moved to 28", 1);
        }
        if w.is_none() {
            c.count("moves out of the range refused", 1);
        }
        c.case(w.is_none() || clamped, hash((n, ky, 3)));
    };
    for _ in 0..c.n(250_000, 6_000_000) {
        let n = any_day(&mut c.rng);
        let kd = small_or_huge(&mut c.rng, u64::MAX);
        let km = small_or_huge(&mut c.rng, u64::from(u32::MAX)) as u32;
        let ky = match c.rng.below(8) {
            0 => c.rng.next() as i32,
            1 => *c.rng.pick(&[i32::MIN, i32::MIN + 1, i32::MAX, i32::MAX - 1, 0, 1, -1]),
            2 => c.rng.range(-530_000, 530_000) as i32,
            3 => (262_142 - from_num(n).0 + c.rng.range(-2, 2)) as i32,
            4 => (-262_143 - from_num(n).0 + c.rng.range(-2, 2)) as i32,
            _ => c.rng.range(-400, 400) as i32,
        };
        c.guard(|| format!("{} moved by {kd} days / {km} months / {ky} years", iso(from_num(n))), |c| step(c, n, kd, km, ky));
    }
    // exactly to and one past the ends of the range, in days
    for _ in 0..c.n(20_000, 400_000) {
        let n = any_day(&mut c.rng);
        for k in [maxn() - n, maxn() - n + 1, n - minn(), n - minn() + 1] {
            let km = c.rng.below(40) as u32;
            c.guard(|| format!("{} moved by {k} days", iso(from_num(n))), |c| step(c, n, k as u64, km, 4));
        }
    }
    // every day of four years by every small number of months and years
    for n in num(2023, 1, 1)..num(2029, 1, 1) {
        for k in 0..27u32 {
            c.guard(|| format!("{} moved by {k}", day(n)), |c| step(c, n, u64::from(k) * 13, k, k as i32 - 13));
        }
    }
    c.sample(|| format!("2024-01-31 + 1 month = {:?}", qd(num(2024, 1, 31)).checked_add_months(Months::new(1))));
    c.sample(|| format!("2024-02-29 + 1 year = {:?}", qd(num(2024, 2, 29)).checked_add_years(Years::new(1))));
    c.sample(|| format!("262142-12-31 + 1 day = {:?}", qd(maxn()).checked_add_days(Days::new(1))));
}

pub fn d03(c: &mut Ctx) {
    c.rule = "weekend roll of every day 1600-2400 (every representable day in the thorough tier), of all range ends and random days; non-trivial: Saturdays and Sundays".into();
    c.require(80_000);
    let one = |c: &mut Ctx, n: i64| {
        let w = wd(n);
        let want = if w < 5 { n } else { n + 7 - w };
        let got = qd(n).weekend_roll();
        let exp = (want <= maxn()).then_some(want);
        if w >= 5 {
            let (a, b) = (from_num(n), from_num(want));
            if a.1 != b.1 {
                c.count("rolls across a month end", 1);
            }
            if a.0 != b.0 {
                c.count("rolls across a year end", 1);
            }
        }
        if exp.is_none() {
            c.count("rolls past the end of the range", 1);
        }
        c.check(got.map(qn) == exp, || format!("{} rolled to {got:?}, expected {:?}", day(n), exp.map(day)));
    };
    let (a, b) = if c.thorough() { (minn(), maxn()) } else { (num(1600, 1, 1), num(2400, 12, 31)) };
    for n in a..=b {
        c.guard(|| format!("weekend roll of {}", day(n)), |c| {
            c.enumerated(wd(n) >= 5);
            one(c, n);
        });
    }
    for k in 0..2000 {
        for n in [minn() + k, maxn() - k] {
            c.guard(|| format!("weekend roll of {}", day(n)), |c| {
                c.enumerated(wd(n) >= 5);
                one(c, n);
            });
        }
    }
    for _ in 0..c.n(200_000, 1_000_000) {
        let n = any_day(&mut c.rng);
        c.guard(|| format!("weekend roll of {}", day(n)), |c| {
            c.case(wd(n) >= 5, hash(n));
            one(c, n);
        });
    }
    c.sample(|| format!("2023-12-30 Sat -> {:?}", qd(num(2023, 12, 30)).weekend_roll()));
    c.sample(|| format!("262142-12-31 is a {}", day(maxn())));
}

/// A calendar given by a truth table, which records what it is asked.
pub struct Recorder<'a> {
    pub open: &'a dyn Fn(i64) -> bool,
    pub asked: RefCell<Vec<i64>>,
    pub budget: usize,
}
impl Calendar for Recorder<'_> {
    fn is_business_day(&self, date: Date) -> bool {
        let n = qn(date);
        self.asked.borrow_mut().push(n);
        let a = self.asked.borrow().len();
        assert!(a <= self.budget, "{MONITOR} the calendar was asked {a} times");
        meanwhile();
        (self.open)(n)
    }
}

#[derive(Clone, Copy, Debug)]
enum P {
    D(u64),
    M(u32),
    Y(i32),
    /// a period written by the user: any shift, or none at all
    U(Option<i64>),
}
#[derive(Clone, Copy)]
struct UserPeriod(Option<i64>);
impl qlab_time::period::Period for UserPeriod {
    fn checked_add(self, date: Date) -> Option<Date> {
        meanwhile();
        self.0.and_then(|k| in_range(i128::from(qn(date)) + i128::from(k))).map(qd)
    }
}
impl P {
    fn target(self, n: i64) -> Option<i64> {
        match self {
            P::D(k) => in_range(i128::from(n) + i128::from(k)),
            P::M(k) => month_move(n, i64::from(k)),
            P::Y(k) => year_move(n, i64::from(k)),
            P::U(k) => k.and_then(|k| in_range(i128::from(n) + i128::from(k))),
        }
    }
    fn roll(self, d: Date, cal: &impl Calendar, r: DateRolling) -> Option<Date> {
        match self {
            P::D(k) => d.checked_roll(Days::new(k), cal, r),
            P::M(k) => d.checked_roll(Months::new(k), cal, r),
            P::Y(k) => d.checked_roll(Years::new(k), cal, r),
            P::U(k) => d.checked_roll(UserPeriod(k), cal, r),
        }
    }
}

const RULES: [DateRolling; 5] =
    [DateRolling::Unadjusted, DateRolling::Following, DateRolling::ModifiedFollowing, DateRolling::Preceding, DateRolling::ModifiedPreceding];

/// The expected result.  None: no date; the second flag says that either
/// none or the given date is acceptable (the search runs off the range).
fn rolled(u: i64, open: &dyn Fn(i64) -> bool, r: DateRolling) -> Vec<Option<i64>> {
    let ym = |n: i64| (from_num(n).0, from_num(n).1);
    let fol = || (u..=maxn()).find(|n| open(*n));
    let pre = || (minn()..=u).rev().find(|n| open(*n));
    match r {
        DateRolling::Unadjusted => vec![Some(u)],
        DateRolling::Following => vec![fol()],
        DateRolling::Preceding => vec![pre()],
        DateRolling::ModifiedFollowing => match fol() {
            Some(f) if ym(f) == ym(u) => vec![Some(f)],
            Some(_) => vec![pre()],
            None => vec![None, pre()],
        },
        DateRolling::ModifiedPreceding => match pre() {
            Some(f) if ym(f) == ym(u) => vec![Some(f)],
            Some(_) => vec![fol()],
            None => vec![None, fol()],
        },
    }
}

fn roll_case(c: &mut Ctx, name: &str, open: &dyn Fn(i64) -> bool, n: i64, p: P, span: i64) {
    let d = qd(n);
    let target = p.target(n);
    for r in RULES {
        c.guard(|| format!("{name}: {} + {p:?} rolled {r:?}", iso(from_num(n))), |c| {
            let cal = Recorder { open, asked: RefCell::default(), budget: 12 * span as usize + 40 };
            let got = p.roll(d, &cal, r).map(qn);
            let asked = cal.asked.into_inner();
            c.count("rolls by a user-written period", u64::from(matches!(p, P::U(_))));
            let text = || format!("{name}: {} + {p:?} rolled {r:?}", iso(from_num(n)));
            let Some(u) = target else {
                c.case(true, hash((name, n, format!("{p:?}{r:?}"))));
                c.check(got.is_none(), || format!("{}: {:?} although the sum is out of range", text(), got.map(day)));
                c.check(asked.is_empty(), || format!("{}: consulted the calendar although the sum is out of range", text()));
                return;
            };
            let want = rolled(u, open, r);
            let closed = !open(u);
            c.case(closed && r != DateRolling::Unadjusted, hash((name, n, format!("{p:?}{r:?}"))));
            c.check(want.contains(&got), || format!("{}: {:?}, expected {:?} (unadjusted {})", text(), got.map(day), want.iter().map(|w| w.map(day)).collect::<Vec<_>>(), day(u)));
            if closed && r != DateRolling::Unadjusted {
                c.count(if want[0].is_some_and(|w| w < u) { "rolled backwards" } else { "rolled forwards" }, 1);
                if want[0].is_none() {
                    c.count("search ran off the range", 1);
                }
            }
            if let Some(g) = got {
                c.check(r == DateRolling::Unadjusted || open(g), || format!("{}: {} is not a business day", text(), day(g)));
            }
            // locality: nothing outside what the searches in both directions must look at
            let (lo, hi) = match r {
                DateRolling::Unadjusted => (u, u),
                DateRolling::Following => (u, want[0].unwrap_or(maxn())),
                DateRolling::Preceding => (want[0].unwrap_or(minn()), u),
                _ => {
                    let f = (u..=maxn()).find(|n| open(*n)).unwrap_or(maxn());
                    let b = (minn()..=u).rev().find(|n| open(*n)).unwrap_or(minn());
                    (b, f)
                }
            };
            if let Some(x) = asked.iter().find(|x| !(lo..=hi).contains(*x)) {
                c.violate(format!("{}: consulted {} although only {} to {} matter", text(), day(*x), day(lo), day(hi)));
            }
            if r != DateRolling::Unadjusted && asked.is_empty() {
                c.violate(format!("{}: never consulted the calendar", text()));
            }
            c.count("calendar consultations recorded", asked.len() as u64);
        });
    }
}

pub fn d04(c: &mut Ctx) {
    crate::meanwhile::prepare(c);
    c.rule = "calendar (real market or arbitrary truth table with runs of closed days) x date x period x five conventions; non-trivial: the unadjusted date is closed, or not representable".into();
    c.require(20_000);
    let period = |r: &mut Rng| match r.below(13) {
        // of any length: the magnitude drawn first
        10 => {
            let k = 2u64 << r.below(28);
            P::D(r.below(k))
        }
        11 => {
            let k = 2u64 << r.below(23);
            P::M(r.below(k) as u32)
        }
        12 => {
            let k = 2i64 << r.below(19);
            P::Y(r.range(-k, k) as i32)
        }
        8 => P::U(Some(r.range(-900, 900))),
        9 => P::U(if r.chance(0.1) { None } else { Some(r.range(-3, 3)) }),
        0 | 1 => P::D(r.below(1500)),
        2 => P::D(0),
        3 | 4 => P::M(r.below(400) as u32),
        5 => P::Y(r.range(-90, 90) as i32),
        6 => *r.pick(&[P::D(u64::MAX), P::M(u32::MAX), P::Y(i32::MAX), P::Y(i32::MIN), P::D(1), P::M(1), P::Y(-1)]),
        _ => P::D(r.below(5)),
    };
    for t in 0..c.n(40_000, 1_000_000) {
        let seed = c.rng.next();
        let run = *c.rng.pick(&[1i64, 2, 3, 10, 40, 90]);
        let dens = *c.rng.pick(&[0.05, 0.3, 0.6]);
        let thr = (dens * u64::MAX as f64) as u64;
        let open = move |n: i64| !(hash((seed, n.div_euclid(run))) < thr || hash((seed, n, 7)) < thr / 4);
        let n = any_day(&mut c.rng);
        let mut p = period(&mut c.rng);
        if c.rng.chance(0.2) {
            // aim at the last or first days of a month
            let x = from_num(n);
            let t = num(x.0, x.1, civil::dim(x.0, x.1)) - n;
            p = P::D((t + c.rng.range(0, 2)) as u64);
        }
        // keep searches bounded
        if let Some(u) = p.target(n) {
            let far = (1..20_000).all(|k| !open((u + k).min(maxn()))) || (1..20_000).all(|k| !open((u - k).max(minn())));
            if far && maxn() - u > 20_000 && u - minn() > 20_000 {
                continue;
            }
        }
        roll_case(c, &format!("table {t}"), &open, n, p, 20_000);
    }
    // the same date and period under one calendar after another
    for _ in 0..c.n(1500, 30_000) {
        let n = any_day(&mut c.rng).clamp(minn() + 2000, maxn() - 200_000);
        let p = match c.rng.below(4) {
            0 => P::D(c.rng.below(1500)),
            1 => P::M(c.rng.below(200) as u32),
            2 => P::Y(c.rng.range(-3, 90) as i32),
            _ => P::D(0),
        };
        for k in 0..3u8 {
            let seed = c.rng.next();
            let open = move |n: i64| hash((seed, n.div_euclid(4))) % 3 != 0;
            roll_case(c, &format!("table {k} in turn"), &open, n, p, 400);
        }
        c.count("rolls asked of several calendars in turn", 1);
    }
    // one closed block of chosen length around a date: month ends, whole months, over a year, the range ends
    for t in 0..c.n(6000, 100_000) {
        let len = *c.rng.pick(&[1i64, 2, 4, 28, 31, 62, 200, 340, 366, 400, 800]);
        let u = match c.rng.below(4) {
            0 => maxn() - c.rng.range(0, 20),
            1 => minn() + c.rng.range(0, 20),
            _ => any_day(&mut c.rng),
        };
        let start = u - c.rng.range(0, len - 1);
        let open = move |n: i64| !(start..start + len).contains(&n);
        let k = c.rng.range(0, 3).min(u - minn());
        roll_case(c, &format!("block {t} of {len} days"), &open, u - k, P::D(k as u64), len);
    }
    // never open, near both ends (searches stay short in one direction only)
    for k in 0..30 {
        let closed = move |n: i64| n < maxn() - 40;
        roll_case(c, "closed for the last 40 days", &|n| closed(n), maxn() - k, P::D(0), 60);
        let closed = move |n: i64| n > minn() + 40;
        roll_case(c, "closed for the first 40 days", &|n| closed(n), minn() + k, P::D(0), 60);
    }
    // real markets
    let ms = crate::markets::all();
    for m in &ms {
        let open = |n: i64| m.open(nd(n));
        for _ in 0..c.n(60, 1500) {
            let n = c.rng.range(num(1902, 1, 1), num(2150, 1, 1));
            let p = match c.rng.below(3) {
                0 => P::D(c.rng.below(700)),
                1 => P::M(c.rng.below(400) as u32),
                _ => P::Y(c.rng.range(0, 40) as i32),
            };
            roll_case(c, m.key, &open, n, p, 40);
        }
        c.count("market handles", 1);
    }
    crate::meanwhile::settle(c);
    c.sample(|| {
        let cal = calendar::unitedkingdom::UnitedKingdom::default();
        format!("2024-02-29 + 1 month, modified following, London: {:?}", qd(num(2024, 2, 29)).checked_roll(Months::new(1), &cal, DateRolling::ModifiedFollowing))
    });
}

fn frac<D: DayCount>(a: i64, b: i64) -> (QLabResult<f64>, QLabResult<f32>) {
    (D::calculate_day_count_fraction::<f64>(qd(a), qd(b)), D::calculate_day_count_fraction::<f32>(qd(a), qd(b)))
}

fn near(got: f64, want: f64, eps: f64) -> bool {
    got == want || (got - want).abs() <= 4.0 * eps * want.abs()
}

fn act(c: &mut Ctx, name: &str, (x, y): (QLabResult<f64>, QLabResult<f32>), a: i64, b: i64, basis: i64) {
    let days = b - a;
    let want = days as f64 / basis as f64;
    let text = || format!("{name} from {} to {}", iso(from_num(a)), iso(from_num(b)));
    match x {
        Ok(v) => c.check(near(v, want, f64::EPSILON), || format!("{}: {v:e}, expected {days}/{basis} = {want:e}", text())),
        Err(e) => c.violate(format!("{}: refused: {e}", text())),
    }
    match y {
        Ok(v) => c.check(near(f64::from(v), want, f64::from(f32::EPSILON)), || format!("{} (single): {v:e}, expected {want:e}", text())),
        Err(e) => c.violate(format!("{} (single): refused: {e}", text())),
    }
}

pub fn refused_naming<T: std::fmt::Debug>(c: &mut Ctx, text: &dyn Fn() -> String, r: &QLabResult<T>, names: &[String]) {
    match r {
        Ok(v) => c.violate(format!("{}: {v:?} instead of an error", text())),
        Err(QLabError::ComputeError(ComputeError::InvalidInput(s))) => {
            let full = r.as_ref().unwrap_err().to_string();
            for n in names {
                c.check(s.contains(n.as_str()) && full.contains(n.as_str()), || format!("{}: the refusal '{full}' does not name {n}", text()));
            }
        }
        Err(e) => c.violate(format!("{}: refused with {e:?} instead of an invalid-input error", text())),
    }
}

pub fn d05(c: &mut Ctx) {
    c.rule = "pairs of dates x three conventions x both precisions; exhaustive for all pairs within 2023-12-01..2025-03-31; non-trivial: reversed, equal, month-end (28-31) or extreme pairs".into();
    c.require(50_000);
    let one = |c: &mut Ctx, a: i64, b: i64| {
        act(c, "Actual/360", frac::<Act360>(a, b), a, b, 360);
        act(c, "Actual/365", frac::<Act365>(a, b), a, b, 365);
        let (x, y) = frac::<Thirty360>(a, b);
        let (p, q) = (from_num(a), from_num(b));
        let text = || format!("30/360 from {} to {}", iso(p), iso(q));
        if b < a {
            let names = [iso(p), iso(q)];
            refused_naming(c, &text, &x, &names);
            refused_naming(c, &text, &y, &names);
            c.count("reversed 30/360 pairs refused", 1);
            return;
        }
        let k = 360 * (q.0 - p.0) + 30 * (q.1 - p.1) + q.2.min(30) - p.2.min(30);
        let want = k as f64 / 360.0;
        match x {
            Ok(v) => c.check(near(v, want, f64::EPSILON), || format!("{}: {v:e}, expected {k}/360 = {want:e}", text())),
            Err(e) => c.violate(format!("{}: refused: {e}", text())),
        }
        match y {
            Ok(v) => c.check(near(f64::from(v), want, f64::from(f32::EPSILON)), || format!("{} (single): {v:e}, expected {want:e}", text())),
            Err(e) => c.violate(format!("{} (single): refused: {e}", text())),
        }
    };
    let (lo, hi) = (num(2023, 12, 1), num(2025, 3, 31));
    for a in lo..=hi {
        for b in lo..=hi {
            c.guard(|| format!("{} to {}", day(a), day(b)), |c| {
                c.enumerated(b <= a || from_num(a).2 > 27 || from_num(b).2 > 27);
                one(c, a, b);
            });
        }
    }
    for _ in 0..c.n(300_000, 10_000_000) {
        let a = any_day(&mut c.rng);
        let b = if c.rng.chance(0.5) { any_day(&mut c.rng) } else { (a + c.rng.range(-4000, 12_000)).clamp(minn(), maxn()) };
        c.guard(|| format!("{} to {}", iso(from_num(a)), iso(from_num(b))), |c| {
            c.case(b <= a || from_num(a).2 > 27 || from_num(b).2 > 27 || (b - a) > 400_000, hash((a, b)));
            one(c, a, b);
        });
    }
    // additivity and antisymmetry as observed on the results themselves
    for _ in 0..c.n(50_000, 1_000_000) {
        let base = any_day(&mut c.rng);
        let mut v = [base, (base + c.rng.range(-30_000, 30_000)).clamp(minn(), maxn()), (base + c.rng.range(-30_000, 30_000)).clamp(minn(), maxn())];
        if c.rng.chance(0.5) {
            v.sort_unstable();
        }
        c.guard(|| format!("additivity {v:?}"), |c| {
            let f = |a: i64, b: i64| frac::<Act365>(a, b).0.unwrap_or(f64::NAN);
            let g = |a: i64, b: i64| frac::<Act360>(a, b).0.unwrap_or(f64::NAN);
            c.case(true, hash((v, "add")));
            for (h, name) in [(&f as &dyn Fn(i64, i64) -> f64, "Actual/365"), (&g, "Actual/360")] {
                let (x, y, z) = (h(v[0], v[1]), h(v[1], v[2]), h(v[0], v[2]));
                c.check((x + y - z).abs() <= 1e-12 * (x.abs() + y.abs() + 1.0), || format!("{name}: {x} + {y} != {z} over {v:?}"));
                c.check(h(v[1], v[0]) == -x, || format!("{name}: {x} one way, {} the other, {v:?}", h(v[1], v[0])));
            }
        });
    }
    c.sample(|| format!("30/360 2022-12-31..2023-01-01: {:?}", frac::<Thirty360>(num(2022, 12, 31), num(2023, 1, 1)).0.ok()));
    c.sample(|| format!("Act/360 whole range: {:?}", frac::<Act360>(minn(), maxn()).0.ok()));
}
