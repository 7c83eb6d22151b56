//! Reference civil-date arithmetic, written independently of the code under
//! test and of chrono.  Day numbers count from 0001-01-01 = 1 (proleptic
//! Gregorian), so they are comparable to `serial_date`.

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub struct Ymd(pub i64, pub i64, pub i64);

pub fn leap(y: i64) -> bool {
    if y.rem_euclid(400) == 0 {
        return true;
    }
    if y.rem_euclid(100) == 0 {
        return false;
    }
    y.rem_euclid(4) == 0
}

pub fn dim(y: i64, m: i64) -> i64 {
    [31, if leap(y) { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][(m - 1) as usize]
}

pub fn valid(y: i64, m: i64, d: i64) -> bool {
    (1..=12).contains(&m) && d >= 1 && d <= dim(y, m)
}

/// Number of days before 1 January of year `y`, plus 0 for year 1.
fn before_year(y: i64) -> i64 {
    let p = y - 1;
    365 * p + p.div_euclid(4) - p.div_euclid(100) + p.div_euclid(400)
}

pub fn ordinal(y: i64, m: i64, d: i64) -> i64 {
    (1..m).map(|k| dim(y, k)).sum::<i64>() + d
}

pub fn num(y: i64, m: i64, d: i64) -> i64 {
    before_year(y) + ordinal(y, m, d)
}

pub fn from_num(n: i64) -> Ymd {
    // estimate the year, then correct
    let mut y = (n * 400).div_euclid(146_097) + 1;
    while before_year(y) >= n {
        y -= 1;
    }
    while before_year(y + 1) < n {
        y += 1;
    }
    let mut rest = n - before_year(y);
    let mut m = 1;
    while rest > dim(y, m) {
        rest -= dim(y, m);
        m += 1;
    }
    Ymd(y, m, rest)
}

/// 0 = Monday … 6 = Sunday.  0001-01-01 was a Monday.
pub fn wd(n: i64) -> i64 {
    (n - 1).rem_euclid(7)
}

/// Moves `k` calendar months, clamping the day to the target month's length.
pub fn add_months(x: Ymd, k: i64) -> Ymd {
    let idx = x.0 * 12 + (x.1 - 1) + k;
    let (y, m) = (idx.div_euclid(12), idx.rem_euclid(12) + 1);
    Ymd(y, m, x.2.min(dim(y, m)))
}

impl Ymd {
    pub fn num(self) -> i64 {
        num(self.0, self.1, self.2)
    }
}

impl std::fmt::Display for Ymd {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:04}-{:02}-{:02}", self.0, self.1, self.2)
    }
}

/// Western Easter Sunday (Gauss, with the two exceptional corrections).
pub fn easter_sunday(y: i64) -> i64 {
    let a = y.rem_euclid(19);
    let b = y.rem_euclid(4);
    let c = y.rem_euclid(7);
    let k = y.div_euclid(100);
    let p = (13 + 8 * k).div_euclid(25);
    let q = k.div_euclid(4);
    let mm = (15 - p + k - q).rem_euclid(30);
    let nn = (4 + k - q).rem_euclid(7);
    let d = (19 * a + mm).rem_euclid(30);
    let e = (2 * b + 4 * c + 6 * d + nn).rem_euclid(7);
    let mut n = num(y, 3, 22) + d + e;
    if d == 29 && e == 6 {
        n -= 7;
    }
    if d == 28 && e == 6 && (11 * mm + 11) % 30 < 19 {
        n -= 7;
    }
    n
}

/// Julian-calendar Easter Sunday expressed as a Gregorian day number: the
/// Sunday after the Julian paschal full moon.
pub fn orthodox_easter_sunday(y: i64) -> i64 {
    let g = y.rem_euclid(19); // golden number - 1
    let epact_day = 21 + (19 * g + 15) % 30; // March day of paschal full moon
    // Julian day number (in our count) of March 0 Julian of year y
    let shift = y.div_euclid(100) - y.div_euclid(400) - 2; // Julian/Gregorian offset after 1 March
    let full_moon = num(y, 3, 1) - 1 + epact_day + shift;
    // next Sunday strictly after
    let mut n = full_moon + 1;
    while wd(n) != 6 {
        n += 1;
    }
    n
}
