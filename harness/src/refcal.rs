//! Reference holiday model: reads `reference/markets.txt`, a declarative
//! statement of each market's published rules, and *generates* the set of
//! closed days of every year (the code under test *tests* a day instead).
use crate::civil::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub const FIRST: i64 = 1901;
pub const LAST: i64 = 2199;

#[derive(Clone, Debug)]
enum Base {
    Fix(i64, i64),
    Nth(i64, i64, i64),      // n-th weekday of month
    Last(i64, i64),          // last weekday of month
    OnAfter(i64, i64, i64),  // first weekday on or after m/d
    OnBefore(i64, i64, i64), // last weekday on or before m/d
    Easter(i64),
    Orth(i64),
    Func(String),
}

#[derive(Clone, Debug)]
struct Rule {
    base: Base,
    shift: Vec<(i64, i64)>, // weekday -> offset
    from: i64,
    to: i64,
    except: Vec<i64>,
}

#[derive(Clone, Debug, Default)]
struct Spec {
    weekend: Vec<i64>,
    rules: Vec<Rule>,
    days: Vec<i64>,
    nots: Vec<i64>,
    works: Vec<i64>,
}

/// The evaluated model of one market over FIRST..=LAST.
pub struct RefMarket {
    pub key: String,
    pub weekend: Vec<i64>,
    open: Vec<bool>, // indexed by day number - lo
    lo: i64,
    pub holidays: BTreeSet<i64>,
    pub works: BTreeSet<i64>,
}

impl RefMarket {
    pub fn is_weekend(&self, n: i64) -> bool {
        self.weekend.contains(&wd(n))
    }
    pub fn is_open(&self, n: i64) -> bool {
        self.open[(n - self.lo) as usize]
    }
}

const WDN: [&str; 7] = ["mon", "tue", "wed", "thu", "fri", "sat", "sun"];
fn wdp(s: &str) -> i64 {
    WDN.iter().position(|w| *w == s).unwrap_or_else(|| panic!("weekday {s}")) as i64
}
fn md(s: &str) -> (i64, i64) {
    let (a, b) = s.split_once('/').unwrap_or_else(|| panic!("m/d {s}"));
    (a.parse().unwrap(), b.parse().unwrap())
}

/// Equinox day of the month in Japan, from the mean-equinox approximation
/// published for calendar makers (vernal, autumnal).
fn japan_equinox(y: i64, autumn: bool) -> i64 {
    let yf = y as f64;
    let (base, leap_from) = match (y, autumn) {
        (..=1899, _) => panic!(),
        (1900..=1979, false) => (20.8357, 1983),
        (1980..=2099, false) => (20.8431, 1980),
        (_, false) => (21.8510, 1980),
        (1900..=1979, true) => (23.2588, 1983),
        (1980..=2099, true) => (23.2488, 1980),
        (_, true) => (24.2488, 1980),
    };
    let leaps = (y - leap_from) / 4; // truncated toward zero, as published
    (base + 0.242194 * (yf - 1980.0) - leaps as f64).floor() as i64
}

fn func(name: &str, y: i64) -> Vec<i64> {
    match name {
        "japan-vernal" => vec![num(y, 3, japan_equinox(y, false))],
        "japan-autumnal" => vec![num(y, 9, japan_equinox(y, true))],
        // a single day between two holidays: Tuesday between Respect-for-the-Aged
        // Day (third Monday) and the equinox
        "japan-citizens" => {
            let first = num(y, 9, 1);
            let monday = first + (-wd(first)).rem_euclid(7) + 14;
            if num(y, 9, japan_equinox(y, true)) == monday + 2 { vec![monday + 1] } else { vec![] }
        }
        _ => panic!("func {name}"),
    }
}

impl Rule {
    fn dates(&self, y: i64) -> Vec<i64> {
        if y < self.from || y > self.to || self.except.contains(&y) {
            return vec![];
        }
        let base = match &self.base {
            Base::Fix(m, d) => {
                if !valid(y, *m, *d) {
                    return vec![];
                }
                vec![num(y, *m, *d)]
            }
            Base::Nth(n, w, m) => {
                let first = num(y, *m, 1);
                let off = (w - wd(first)).rem_euclid(7);
                vec![first + off + 7 * (n - 1)]
            }
            Base::Last(w, m) => {
                let last = num(y, *m, dim(y, *m));
                vec![last - (wd(last) - w).rem_euclid(7)]
            }
            Base::OnAfter(w, m, d) => {
                let x = num(y, *m, *d);
                vec![x + (w - wd(x)).rem_euclid(7)]
            }
            Base::OnBefore(w, m, d) => {
                let x = num(y, *m, *d);
                vec![x - (wd(x) - w).rem_euclid(7)]
            }
            Base::Easter(o) => vec![easter_sunday(y) + o],
            Base::Orth(o) => vec![orthodox_easter_sunday(y) + o],
            Base::Func(n) => func(n, y),
        };
        base.into_iter()
            .map(|x| x + self.shift.iter().find(|s| s.0 == wd(x)).map_or(0, |s| s.1))
            .collect()
    }
}

fn parse(text: &str) -> (Vec<String>, HashMap<String, Spec>) {
    let mut order = vec![];
    let mut specs: HashMap<String, Spec> = HashMap::new();
    let mut cur = String::new();
    for (ln, line) in text.lines().enumerate() {
        let line = line.split('#').next().unwrap().trim();
        if line.is_empty() {
            continue;
        }
        let mut t: Vec<&str> = line.split_whitespace().collect();
        if t[0] == "market" {
            cur = t[1].to_string();
            order.push(cur.clone());
            specs.insert(cur.clone(), Spec { weekend: vec![5, 6], ..Spec::default() });
            continue;
        }
        if t[0] == "include" {
            let inc = specs.get(t[1]).unwrap_or_else(|| panic!("include {}", t[1])).clone();
            let s = specs.get_mut(&cur).unwrap();
            s.weekend = inc.weekend;
            s.rules.extend(inc.rules);
            s.days.extend(inc.days);
            s.nots.extend(inc.nots);
            s.works.extend(inc.works);
            continue;
        }
        let spec = specs.get_mut(&cur).unwrap_or_else(|| panic!("line {ln}"));
        match t[0] {
            "weekend" => {
                spec.weekend = t[1..].iter().map(|w| wdp(w)).collect();
                continue;
            }
            "days" | "not" | "work" => {
                let y: i64 = t[1].parse().unwrap();
                for x in &t[2..] {
                    let (m, d) = md(x);
                    assert!(valid(y, m, d), "line {ln}");
                    match t[0] {
                        "days" => spec.days.push(num(y, m, d)),
                        "not" => spec.nots.push(num(y, m, d)),
                        _ => spec.works.push(num(y, m, d)),
                    }
                }
                continue;
            }
            _ => {}
        }
        let (mut from, mut to, mut except, mut shift) = (FIRST - 1, LAST + 1, vec![], vec![]);
        t.retain(|x| {
            if let Some(r) = x.strip_prefix('@') {
                if let Some((a, b)) = r.split_once('-') {
                    if !a.is_empty() {
                        from = a.parse().unwrap();
                    }
                    if !b.is_empty() {
                        to = b.parse().unwrap();
                    }
                } else {
                    from = r.parse().unwrap();
                    to = from;
                }
                false
            } else if let Some(r) = x.strip_prefix('!') {
                except = r.split(',').map(|v| v.parse().unwrap()).collect();
                false
            } else if x.len() > 3 && WDN.contains(&&x[..3]) {
                shift.push((wdp(&x[..3]), x[3..].parse().unwrap()));
                false
            } else {
                true
            }
        });
        let base = match t[0] {
            "fix" => {
                let (m, d) = md(t[1]);
                Base::Fix(m, d)
            }
            "nth" => Base::Nth(t[1].parse().unwrap(), wdp(t[2]), t[3].parse().unwrap()),
            "last" => Base::Last(wdp(t[1]), t[2].parse().unwrap()),
            "onafter" => {
                let (m, d) = md(t[2]);
                Base::OnAfter(wdp(t[1]), m, d)
            }
            "onbefore" => {
                let (m, d) = md(t[2]);
                Base::OnBefore(wdp(t[1]), m, d)
            }
            "easter" => Base::Easter(t[1].parse().unwrap()),
            "orth" => Base::Orth(t[1].parse().unwrap()),
            "func" => Base::Func(t[1].to_string()),
            x => panic!("line {ln}: {x}"),
        };
        spec.rules.push(Rule { base, shift, from, to, except });
    }
    (order, specs)
}

pub fn load() -> BTreeMap<String, RefMarket> {
    let (order, specs) = parse(include_str!("../../reference/markets.txt"));
    let lo = num(FIRST, 1, 1);
    let hi = num(LAST, 12, 31);
    let mut out = BTreeMap::new();
    for key in order {
        let s = &specs[&key];
        let mut hol = BTreeSet::new();
        for y in FIRST - 1..=LAST + 1 {
            for r in &s.rules {
                if matches!(r.base, Base::Func(_)) && !(FIRST..=LAST).contains(&y) {
                    continue;
                }
                hol.extend(r.dates(y));
            }
        }
        hol.extend(s.days.iter());
        for n in &s.nots {
            hol.remove(n);
        }
        let works: BTreeSet<i64> = s.works.iter().copied().collect();
        let open = (lo..=hi)
            .map(|n| works.contains(&n) || (!s.weekend.contains(&wd(n)) && !hol.contains(&n)))
            .collect();
        out.insert(key.clone(), RefMarket { key, weekend: s.weekend.clone(), open, lo, holidays: hol, works });
    }
    out
}
