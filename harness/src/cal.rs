//! C01–C09: calendars.
use crate::civil::{self, from_num, num, wd, Ymd};
use crate::markets::{self, ask, Market, A, Q};
use crate::refcal::{self, RefMarket, FIRST, LAST};
use crate::rt::*;
use calendar::jointcalendar::JointCalendar;
use calendar::Calendar as Cal;
use chrono::NaiveDate;
use std::collections::BTreeMap;
use std::sync::Arc;

pub const EUROPE: &[&str] = &[
    "austria", "czechrepublic", "denmark", "finland", "france", "germany", "hungary", "iceland", "italy", "norway",
    "poland", "romania", "russia", "slovakia", "sweden", "switzerland", "target", "ukraine", "unitedkingdom",
];
pub const AMERICAS: &[&str] = &[
    "argentina", "australia", "botswana", "brazil", "canada", "chile", "mexico", "newzealand", "southafrica",
    "unitedstates", "weekendsonly",
];
pub const ASIA: &[&str] = &[
    "china", "hongkong", "india", "indonesia", "israel", "japan", "singapore", "southkorea", "taiwan", "thailand",
    "turkey",
];

pub fn lo() -> i64 {
    num(FIRST, 1, 1)
}
pub fn hi() -> i64 {
    num(LAST, 12, 31)
}

/// The reference market for a handle (defaults resolve to the documented one).
pub fn ref_key(key: &str) -> String {
    match key.split_once('.') {
        Some(("germany", "default" | "none")) => "germany.frankfurt".into(),
        Some((m, "default" | "none")) => format!("{m}.settlement"),
        _ => key.to_string(),
    }
}

fn wdname(n: i64) -> &'static str {
    ["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"][wd(n) as usize]
}

pub fn day(n: i64) -> String {
    format!("{} {}", from_num(n), wdname(n))
}

pub fn c01(c: &mut Ctx) {
    c.rule = "every market variant x every day 1901-2199; non-trivial: a weekday closing, a weekend day, or an open weekend day".into();
    c.exhaustive = true;
    c.require(1_000_000);
    let refs = refcal::load();
    for m in markets::all() {
        let r = &refs[&ref_key(m.key)];
        for n in lo()..=hi() {
            let d = nd(n);
            let f = &m.f;
            c.guard(
                || format!("{} on {}", m.key, day(n)),
                |c| {
                    let (b, h, w) = (f(Q::Business(d)).b(), f(Q::Holiday(d)).b(), f(Q::Weekend(d)).b());
                    let q = qd(n);
                    let (bb, bh) = (f(Q::BridgeBusiness(q)).b(), f(Q::BridgeHoliday(q)).b());
                    c.enumerated(!b || w);
                    if b == h {
                        c.violate(format!("{} {}: business day = {b} and holiday = {h}", m.key, day(n)));
                    }
                    if bb != b || bh != h {
                        c.violate(format!("{} {}: calendar says business={b} holiday={h}, through the date library {bb}/{bh}", m.key, day(n)));
                    }
                    if w != r.is_weekend(n) {
                        c.violate(format!("{} {}: is_weekend = {w}", m.key, day(n)));
                    }
                    if b && r.is_weekend(n) {
                        if r.works.contains(&n) {
                            c.count("working weekend days seen", 1);
                        } else {
                            c.violate(format!("{} {}: weekend day is a business day", m.key, day(n)));
                        }
                    }
                },
            );
        }
        c.sample(|| format!("{}: {} days", m.key, hi() - lo() + 1));
        c.count("market handles", 1);
        // beyond the tables: consistent answers or loud refusals
        for t in 0..c.n(2000, 60_000) {
            let n = match t % 4 {
                0 => c.rng.range(num(1500, 1, 1), lo() - 1),
                1 => c.rng.range(hi() + 1, num(2600, 12, 31)),
                2 => *c.rng.pick(&[lo() - 1, hi() + 1, lo() - 366, hi() + 365, crate::date::minn(), crate::date::maxn()]),
                _ => crate::date::any_day(&mut c.rng),
            };
            if (lo()..=hi()).contains(&n) {
                continue;
            }
            PROGRESS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            let (d, q) = (nd(n), qd(n));
            let b = attempt(|| (m.f)(Q::Business(d)).b());
            let all = [attempt(|| !(m.f)(Q::Holiday(d)).b()), attempt(|| (m.f)(Q::BridgeBusiness(q)).b()), attempt(|| !(m.f)(Q::BridgeHoliday(q)).b())];
            let answers: Vec<bool> = all.iter().chain([&b]).filter_map(|x| x.as_ref().ok().copied()).collect();
            c.count(if answers.is_empty() { "days outside the tables refused" } else { "days outside the tables answered" }, 1);
            if answers.windows(2).any(|w| w[0] != w[1]) {
                c.violate(format!("{} {}: open by business day {b:?}, by holiday {:?}, through the date library {:?} and {:?}", m.key, day(n), all[0], all[1], all[2]));
            }
            let w = attempt(|| (m.f)(Q::Weekend(d)).b());
            c.check(w == Ok(r.is_weekend(n)), || format!("{} {}: is_weekend = {w:?}", m.key, day(n)));
            c.check(b != Ok(true) || !r.is_weekend(n), || format!("{} {}: weekend day is a business day", m.key, day(n)));
        }
    }
}

pub fn c02(c: &mut Ctx) {
    c.rule = "every market handle x year 1901-2199 x two Easters (all non-trivial), plus years outside the range answered or refused".into();
    c.exhaustive = true;
    c.require(20_000);
    for m in markets::all() {
        for y in FIRST..=LAST {
            for (q, want, name) in [
                (Q::Easter(y as i32), civil::easter_sunday(y) + 1, "Western"),
                (Q::Orthodox(y as i32), civil::orthodox_easter_sunday(y) + 1, "Orthodox"),
            ] {
                c.guard(
                    || format!("{} {name} Easter Monday {y}", m.key),
                    |c| {
                        let got = (m.f)(q).n();
                        let w = want - num(y, 1, 1) + 1;
                        c.enumerated(true);
                        c.check(got == w, || format!("{} {name} Easter Monday {y}: day {got} of the year, computus says {w} ({})", m.key, from_num(want)));
                    },
                );
            }
        }
    }
    // any order of years, calendars and questions
    let ms = markets::all();
    for _ in 0..c.n(100_000, 1_000_000) {
        let m = &ms[c.rng.below(ms.len() as u64) as usize];
        let y = c.rng.range(FIRST, LAST);
        let west = c.rng.chance(0.5);
        c.guard(|| format!("{} Easter Monday {y} in random order", m.key), |c| {
            let (q, s) = if west { (Q::Easter(y as i32), civil::easter_sunday(y)) } else { (Q::Orthodox(y as i32), civil::orthodox_easter_sunday(y)) };
            let (got, want) = ((m.f)(q).n(), s + 1 - num(y, 1, 1) + 1);
            c.count("Easters asked in random order", 1);
            c.check(got == want, || format!("{} {} Easter Monday {y}, asked in random order: day {got} of the year, computus says {want}", m.key, if west { "Western" } else { "Orthodox" }));
        });
    }
    let mut years: Vec<i64> = (1..FIRST).chain(LAST + 1..=4099).collect();
    years.extend([0, -1, -1901, -1900, 100_000, -262_143, 262_142, i64::from(i32::MIN), i64::from(i32::MAX)]);
    for y in years {
        for (k, q) in [(0, Q::Easter(y as i32)), (1, Q::Orthodox(y as i32))] {
            PROGRESS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            let got = attempt(|| (ms[0].f)(q).n());
            match got {
                Err(_) => c.count("out-of-range years refused", 1),
                Ok(v) => {
                    c.count("out-of-range years answered", 1);
                    let want = if k == 0 { civil::easter_sunday(y) } else { civil::orthodox_easter_sunday(y) } + 1 - num(y, 1, 1) + 1;
                    c.check(v == want, || format!("year {y} outside the table: day {v}, computus says {want}"));
                }
            }
            c.enumerated(false);
        }
    }
    c.sample(|| format!("2024: Western day {}, Orthodox day {}", (ms[0].f)(Q::Easter(2024)).n(), (ms[0].f)(Q::Orthodox(2024)).n()));
}

/// The France-settlement finding: what the tree is known to do instead.
fn france_quirk(n: i64, r: &RefMarket) -> Option<bool> {
    if r.key != "france.settlement" {
        return None;
    }
    let Ymd(y, m, d) = from_num(n);
    let e = civil::easter_sunday(y);
    if m == 5 && (d == 10 || d == 21) {
        return Some(false);
    }
    if n == e + 39 || n == e + 50 {
        // open in the defective version unless another rule closes it
        let other = (m == 5 && (d == 1 || d == 8)) || r.is_weekend(n);
        return Some(!other);
    }
    None
}

fn judge(c: &mut Ctx, m: &Market, r: &RefMarket, n: i64, got: bool, how: &str) {
    let want = r.is_open(n);
    if got != want {
        let detail = || {
            format!("{} {}: {how} says {}, the published rules say {}", m.key, day(n), if got { "open" } else { "closed" }, if want { "open" } else { "closed" })
        };
        if france_quirk(n, r) == Some(got) {
            c.known_or_violate("france-settlement-may", detail);
        } else {
            c.violate(detail());
        }
    }
}

fn region(c: &mut Ctx, mods: &[&str]) {
    c.rule = "every market variant of the region x every day 1901-2199, forwards and (a sample) in random order; non-trivial: the reference model or the calendar closes a weekday, or opens a weekend day".into();
    c.exhaustive = true;
    c.require(15_000);
    c.assumptions.push("reference/markets.txt states each market's published rules (written from the rules; one-off lunar, Islamic and Hebrew dates cross-checked by astronomy in tools/)".into());
    let refs = refcal::load();
    let ms: Vec<Market> = markets::all().into_iter().filter(|m| mods.contains(&m.module)).collect();
    for m in &ms {
        let r = &refs[&ref_key(m.key)];
        let mut closed = 0;
        for n in lo()..=hi() {
            let d = nd(n);
            c.guard(
                || format!("{} on {}", m.key, day(n)),
                |c| {
                    let got = m.open(d);
                    let special = (!got || !r.is_open(n)) != r.is_weekend(n);
                    closed += u64::from(!got && !r.is_weekend(n));
                    c.enumerated(special);
                    judge(c, m, r, n, got, "the calendar");
                    let bridge = (m.f)(Q::BridgeBusiness(qd(n))).b();
                    judge(c, m, r, n, bridge, "the date library");
                },
            );
        }
        c.count("weekday closings", closed);
        c.count("market handles", 1);
        c.sample(|| {
            let x = r.holidays.iter().find(|h| from_num(**h).0 == 2023 && !r.is_weekend(**h)).copied().unwrap_or(lo());
            format!("{}: {closed} weekday closings in 299 years, first of 2023: {}", m.key, day(x))
        });
    }
    // random order, interleaving markets
    for _ in 0..c.n(300_000, 5_000_000) {
        let i = c.rng.below(ms.len() as u64) as usize;
        let n = c.rng.range(lo(), hi());
        let m = &ms[i];
        let r = &refs[&ref_key(m.key)];
        c.guard(|| format!("{} on {}", m.key, day(n)), |c| {
            let got = m.open(nd(n));
            judge(c, m, r, n, got, "the calendar (random order)");
            c.evals += 1;
        });
    }
    // histories: a day asked right before and after one it could be mistaken for
    let lists: Vec<Vec<i64>> = ms.iter().map(|m| refs[&ref_key(m.key)].holidays.iter().copied().filter(|n| (lo()..=hi()).contains(n)).collect()).collect();
    for _ in 0..c.n(60_000, 1_000_000) {
        let i = c.rng.below(ms.len() as u64) as usize;
        let n = if !lists[i].is_empty() && c.rng.chance(0.8) { *c.rng.pick(&lists[i]) } else { c.rng.range(lo(), hi()) };
        let Ymd(y, mo, d) = from_num(n);
        let y2 = if c.rng.chance(0.5) { y + c.rng.range(-3, 3) } else { c.rng.range(FIRST, LAST) }.clamp(FIRST, LAST);
        let (mut j, mut o) = (i, n);
        match c.rng.below(6) {
            0 if civil::valid(y2, mo, d) => o = num(y2, mo, d),
            1 => o = (num(y2, 1, 1) + n - num(y, 1, 1)).min(num(y2, 12, 31)),
            2 => o = n + c.rng.range(-7, 7),
            3 => {
                // the same month and day of the month, or weekday, nearby
                let m2 = c.rng.range(1, 12);
                o = num(y, m2, d.min(civil::dim(y, m2)));
            }
            _ => j = c.rng.below(ms.len() as u64) as usize,
        }
        let o = o.clamp(lo(), hi());
        c.guard(|| format!("{} on {} after {} on {}", ms[i].key, day(n), ms[j].key, day(o)), |c| {
            for (k, x) in [(j, o), (i, n), (j, o), (i, n)] {
                let (m, r) = (&ms[k], &refs[&ref_key(ms[k].key)]);
                let got = m.open(nd(x));
                judge(c, m, r, x, got, "the calendar (after a similar question)");
                c.evals += 1;
            }
            c.count("histories of similar questions", 1);
        });
    }
}

pub fn c03(c: &mut Ctx) {
    region(c, EUROPE)
}
pub fn c04(c: &mut Ctx) {
    region(c, AMERICAS)
}
pub fn c05(c: &mut Ctx) {
    region(c, ASIA)
}

pub fn c06(c: &mut Ctx) {
    c.rule = "every documented relation between market variants x every day 1901-2199; non-trivial: at least one side closes a weekday".into();
    c.exhaustive = true;
    c.require(100_000);
    let all: BTreeMap<&str, Market> = markets::all().into_iter().map(|m| (m.key, m)).collect();
    let refs = refcal::load();
    type Rel = fn(bool, bool, i64) -> bool;
    let eq: Rel = |a, b, _| a == b;
    // first closes at least whenever second does: open(a) implies open(b)
    let sup: Rel = |a, b, _| !a || b;
    let dec31: Rel = |a, b, n| {
        let Ymd(_, m, d) = from_num(n);
        if m == 12 && d == 31 { !a } else { a == b }
    };
    let whit: Rel = |a, b, n| if n == civil::easter_sunday(from_num(n).0) + 50 { !a } else { a == b };
    let july: Rel = |a, b, n| {
        let Ymd(y, m, d) = from_num(n);
        if y >= 2015 && m == 7 && ((d == 3 && wd(n) == 4) || (d == 5 && wd(n) == 0)) { a && !b } else { a == b }
    };
    let mut rels: Vec<(&str, &str, Rel, &str)> = vec![
        ("unitedkingdom.exchange", "unitedkingdom.settlement", eq, "equal"),
        ("unitedkingdom.metals", "unitedkingdom.settlement", eq, "equal"),
        ("germany.xetra", "germany.frankfurt", eq, "equal"),
        ("germany.eurex", "germany.frankfurt", dec31, "equal but closed on 31 December"),
        ("germany.euwax", "germany.frankfurt", whit, "equal but closed on Whit Monday"),
        ("brazil.exchange", "brazil.settlement", sup, "closes at least whenever"),
        ("canada.settlement", "canada.tsx", sup, "closes at least whenever"),
        ("australia.settlement", "australia.asx", sup, "closes at least whenever"),
        ("unitedstates.sofr", "unitedstates.governmentbond", sup, "closes at least whenever"),
        ("unitedstates.libor", "unitedstates.settlement", july, "equal but for the moved Independence Day since 2015"),
        ("germany.default", "germany.frankfurt", eq, "documented default"),
        ("germany.none", "germany.frankfurt", eq, "documented default"),
    ];
    for m in ["australia", "austria", "brazil", "canada", "france", "italy", "russia", "unitedkingdom", "unitedstates"] {
        for d in ["default", "none"] {
            let a: &str = Box::leak(format!("{m}.{d}").into_boxed_str());
            let b: &str = Box::leak(format!("{m}.settlement").into_boxed_str());
            rels.push((a, b, eq, "documented default"));
        }
    }
    for (a, b, rel, name) in rels {
        let (ma, mb) = (&all[a], &all[b]);
        c.count("relations", 1);
        c.sample(|| format!("{a} vs {b}: {name}"));
        for n in lo()..=hi() {
            let d = nd(n);
            c.guard(|| format!("{a} / {b} on {}", day(n)), |c| {
                let (x, y) = (ma.open(d), mb.open(d));
                c.enumerated((!x || !y) && wd(n) < 5);
                if !rel(x, y, n) {
                    c.violate(format!("{}: {a} open={x}, {b} open={y}, expected relation: {name}", day(n)));
                }
            });
        }
    }
    // distinct variants stay distinct: each pair differs where the reference says so
    for (key, m) in &all {
        let Some((module, _)) = key.split_once('.') else { continue };
        for (key2, m2) in all.iter().filter(|(k, _)| k.starts_with(&format!("{module}."))) {
            let (r1, r2) = (&refs[&ref_key(key)], &refs[&ref_key(key2)]);
            for n in lo()..=hi() {
                if r1.is_open(n) != r2.is_open(n) && france_quirk(n, r1).is_none() && france_quirk(n, r2).is_none() {
                    let d = nd(n);
                    c.guard(|| format!("{key} / {key2} on {}", day(n)), |c| {
                        c.enumerated(true);
                        c.count("days on which variants must differ", 1);
                        if m.open(d) == m2.open(d) {
                            c.violate(format!("{}: {key} and {key2} agree (open={}), but only one of these markets closes", day(n), m.open(d)));
                        }
                    });
                }
            }
        }
    }
}

/// A calendar with an arbitrary truth table, written by the user of the library.
#[derive(Clone)]
pub struct Stub {
    pub open: Arc<dyn Fn(NaiveDate) -> bool + Send + Sync>,
    pub weekend: Arc<dyn Fn(NaiveDate) -> bool + Send + Sync>,
    pub name: String,
}
impl std::fmt::Debug for Stub {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.name)
    }
}
impl Cal for Stub {
    fn is_business_day(&self, date: NaiveDate) -> bool {
        (self.open)(date)
    }
    fn is_weekend(&self, date: NaiveDate) -> bool {
        (self.weekend)(date)
    }
}

/// A real market behind the same interface, so that pairs can be formed freely.
pub struct Dyn(pub Market);
impl std::fmt::Debug for Dyn {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(self.0.key)
    }
}
impl Cal for Dyn {
    fn is_business_day(&self, date: NaiveDate) -> bool {
        self.0.open(date)
    }
    fn is_weekend(&self, date: NaiveDate) -> bool {
        (self.0.f)(Q::Weekend(date)).b()
    }
}

pub fn random_stub(seed: u64, density: f64) -> Stub {
    let thr = (density * u64::MAX as f64) as u64;
    // closed in runs: a day is closed when its hash, or that of its block, says so
    let open = move |d: NaiveDate| {
        let n = nn(d);
        let block = hash((seed, n.div_euclid(9), 1u8)) < thr;
        let own = hash((seed, n, 2u8)) < thr / 2;
        !(block || own)
    };
    let s2 = seed;
    let weekend = move |d: NaiveDate| hash((s2, wd(nn(d)), 3u8)) % 4 == 0;
    Stub { open: Arc::new(open), weekend: Arc::new(weekend), name: format!("stub({seed},{density})") }
}

fn joint_laws<C1: Cal, C2: Cal>(c: &mut Ctx, j: &JointCalendar<C1, C2>, a: &dyn Fn(i64) -> (bool, bool), name: &str, n: i64) {
    // a(n) = (open in both, weekend in either), from the parts
    c.guard(|| format!("joint {name} on {}", day(n)), |c| {
        let d = nd(n);
        let (open, we) = a(n);
        let got = ask(j, Q::Business(d)).b();
        let hol = ask(j, Q::Holiday(d)).b();
        let gw = ask(j, Q::Weekend(d)).b();
        let bb = ask(j, Q::BridgeBusiness(qd(n))).b();
        let bh = ask(j, Q::BridgeHoliday(qd(n))).b();
        c.case(!open, hash((name, n)));
        if got != open || hol == open || bb != open || bh == open {
            c.violate(format!("joint {name} {}: business={got} holiday={hol} (bridge {bb}/{bh}), both parts open = {open}", day(n)));
        }
        c.check(gw == we, || format!("joint {name} {}: weekend={gw}, either part's weekend = {we}", day(n)));
    });
}

fn joint_derived<C1: Cal, C2: Cal>(c: &mut Ctx, j: &JointCalendar<C1, C2>, a: &dyn Fn(i64) -> (bool, bool), name: &str, from: i64, len: i64) {
    c.guard(|| format!("joint {name} count from {} +{len}", day(from)), |c| {
        let want = (from..from + len).filter(|n| a(*n).0).count() as i64;
        let got = ask(j, Q::Between(nd(from), nd(from + len), None, None)).n();
        c.case(true, hash((name, from, len)));
        c.check(got == want, || format!("joint {name}: {got} business days in [{}, +{len}), parts share {want}", day(from)));
        let Ymd(y, m, _) = from_num(from);
        let mut last = num(y, m, civil::dim(y, m));
        let eom = ask(j, Q::EndOfMonth(nd(from))).d();
        while !a(last).0 {
            last -= 1;
        }
        c.check(nn(eom) == last, || format!("joint {name}: end of month {} of {}, expected {}", from_num(nn(eom)), from_num(from), from_num(last)));
    });
}

pub fn c07(c: &mut Ctx) {
    c.rule = "pairs of real markets, of arbitrary stub calendars, and nested triples x random days; non-trivial: a day on which the intersection is closed, or a derived count / month end".into();
    c.require(10_000);
    let ms: Vec<Arc<Market>> = markets::all().into_iter().map(Arc::new).collect();
    #[derive(Clone)]
    struct Sh(Arc<Market>);
    impl std::fmt::Debug for Sh {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str(self.0.key)
        }
    }
    impl Cal for Sh {
        fn is_business_day(&self, date: NaiveDate) -> bool {
            self.0.open(date)
        }
        fn is_weekend(&self, date: NaiveDate) -> bool {
            (self.0.f)(Q::Weekend(date)).b()
        }
    }
    let k = ms.len();
    let per = c.n(366, 3000) as i64;
    for i in 0..k {
        for jx in 0..k {
            let (a, b) = (Sh(ms[i].clone()), Sh(ms[jx].clone()));
            let j = if (i + jx) % 2 == 0 { JointCalendar::new(a.clone(), b.clone()) } else { JointCalendar { c1: a.clone(), c2: b.clone() } };
            let name = format!("{}+{}", ms[i].key, ms[jx].key);
            let truth = |n: i64| (a.is_business_day(nd(n)) && b.is_business_day(nd(n)), a.is_weekend(nd(n)) || b.is_weekend(nd(n)));
            let base = c.rng.range(lo(), hi() - per);
            for t in 0..per {
                joint_laws(c, &j, &truth, &name, base + t);
            }
            let from = c.rng.range(lo() + 400, hi() - 400);
            let len = c.rng.range(0, 60);
            joint_derived(c, &j, &truth, &name, from, len);
            c.count("ordered market pairs", 1);
        }
    }
    for t in 0..c.n(400, 5000) {
        let dens = *c.rng.pick(&[0.0, 0.1, 0.3, 0.6]);
        let (s1, s2, s3) = (random_stub(c.seed + 3 * t, dens), random_stub(c.seed + 3 * t + 1, 0.3), random_stub(c.seed + 3 * t + 2, 0.2));
        let j2 = JointCalendar::new(s1.clone(), s2.clone());
        let l = JointCalendar::new(JointCalendar::new(s1.clone(), s2.clone()), s3.clone());
        let r = JointCalendar::new(s3.clone(), JointCalendar::new(s2.clone(), s1.clone()));
        let both = |n: i64| (s1.is_business_day(nd(n)) && s2.is_business_day(nd(n)), s1.is_weekend(nd(n)) || s2.is_weekend(nd(n)));
        let three = |n: i64| (both(n).0 && s3.is_business_day(nd(n)), both(n).1 || s3.is_weekend(nd(n)));
        for _ in 0..10 {
            let n = c.rng.range(lo(), hi());
            joint_laws(c, &j2, &both, &format!("stubs {t}"), n);
            joint_laws(c, &l, &three, &format!("left-nested stubs {t}"), n);
            joint_laws(c, &r, &three, &format!("right-nested stubs {t}"), n);
        }
        let from = c.rng.range(lo() + 4000, hi() - 400);
        let len = c.rng.range(0, 90);
        joint_derived(c, &l, &three, &format!("left-nested stubs {t}"), from, len);
        joint_derived(c, &r, &three, &format!("right-nested stubs {t}"), from, len);
        c.count("stub triples", 1);
    }
    // towers of joint calendars
    #[derive(Clone, Debug)]
    struct Tower(Arc<dyn Cal>);
    impl Cal for Tower {
        fn is_business_day(&self, date: NaiveDate) -> bool {
            self.0.is_business_day(date)
        }
        fn is_weekend(&self, date: NaiveDate) -> bool {
            self.0.is_weekend(date)
        }
    }
    for t in 0..c.n(40, 800) {
        let floors = *c.rng.pick(&[2, 5, 9, 17, 40, 130]);
        let parts: Vec<_> = (0..=floors).map(|i| random_stub(c.rng.next(), if i == floors { 0.2 } else { 0.3 / floors as f64 })).collect();
        let shape = c.rng.next();
        let mut tower = Tower(Arc::new(parts[0].clone()));
        for (i, p) in parts.iter().enumerate().skip(1) {
            let p = Tower(Arc::new(p.clone()));
            tower = Tower(if shape >> (i % 64) & 1 == 1 { Arc::new(JointCalendar::new(tower, p)) } else { Arc::new(JointCalendar::new(p, tower)) });
        }
        let top = JointCalendar::new(tower, parts[0].clone());
        let name = format!("tower {t} of {floors} joint calendars");
        let truth = |n: i64| (parts.iter().all(|p| p.is_business_day(nd(n))), parts.iter().any(|p| p.is_weekend(nd(n))));
        for _ in 0..40 {
            let n = c.rng.range(lo(), hi());
            joint_laws(c, &top, &truth, &name, n);
        }
        let from = c.rng.range(lo() + 4000, hi() - 400);
        joint_derived(c, &top, &truth, &name, from, 30);
        c.count("towers of joint calendars", 1);
    }
    // the same day and interval through one joint calendar after another
    for _ in 0..c.n(600, 10_000) {
        let n = c.rng.range(lo() + 400, hi() - 400);
        let len = c.rng.range(0, 40);
        for _ in 0..6 {
            let (i, jx) = (c.rng.below(k as u64) as usize, c.rng.below(k as u64) as usize);
            let (a, b) = (Sh(ms[i].clone()), Sh(ms[jx].clone()));
            let j = JointCalendar::new(a.clone(), b.clone());
            let name = format!("{}+{}", ms[i].key, ms[jx].key);
            let truth = |n: i64| (a.is_business_day(nd(n)) && b.is_business_day(nd(n)), a.is_weekend(nd(n)) || b.is_weekend(nd(n)));
            for d in [n, n + 1, n] {
                joint_laws(c, &j, &truth, &name, d);
            }
            joint_derived(c, &j, &truth, &name, n, len);
        }
        c.count("days asked of several joint calendars in turn", 1);
    }
    // statically typed joints of real calendars
    macro_rules! stat { ($($a:expr, $b:expr);* $(;)?) => { $( {
        let truth = |n: i64| ($a.is_business_day(nd(n)) && $b.is_business_day(nd(n)), Cal::is_weekend(&$a, nd(n)) || Cal::is_weekend(&$b, nd(n)));
        let j = JointCalendar::new($a, $b);
        for n in num(2000, 1, 1)..num(2031, 1, 1) { joint_laws(c, &j, &truth, concat!(stringify!($a), "+", stringify!($b)), n); }
    } )* } }
    stat!(calendar::unitedkingdom::UnitedKingdom::default(), calendar::unitedstates::UnitedStates::default();
        calendar::target::Target, calendar::japan::Japan;
        calendar::israel::Israel, calendar::target::Target;
        calendar::weekendsonly::WeekendsOnly, calendar::israel::Israel;
        calendar::russia::Russia { market: Some(calendar::russia::RussiaMarket::Exchange) }, calendar::weekendsonly::WeekendsOnly);
    c.sample(|| "JointCalendar(Israel, Target): Friday and Sunday both weekend and closed".into());
    c.sample(|| format!("{} x {} ordered pairs of market handles, {per} consecutive days each", k, k));
}

fn flags() -> Vec<Option<bool>> {
    vec![None, Some(true), Some(false)]
}

fn expect_between(open: &dyn Fn(i64) -> bool, a: i64, b: i64, f: Option<bool>, l: Option<bool>) -> i64 {
    let (x, y, sign) = if a <= b { (a, b, 1) } else { (b, a, -1) };
    let (f, l) = (f.unwrap_or(true), l.unwrap_or(false));
    if x == y {
        return if f && l && open(x) { 1 } else { 0 };
    }
    let mut k = 0;
    for n in x..=y {
        let counted = if n == x { f } else if n == y { l } else { true };
        if counted && open(n) {
            k += 1;
        }
    }
    sign * k
}

fn between_case(c: &mut Ctx, name: &str, f: &dyn Fn(Q) -> A, a: i64, b: i64, open: &dyn Fn(i64) -> bool) {
    for fl in flags() {
        for la in flags() {
            c.guard(|| format!("{name} between {} and {} flags {fl:?}/{la:?}", day(a), day(b)), |c| {
                let got = f(Q::Between(nd(a), nd(b), fl, la)).n();
                let want = expect_between(open, a, b, fl, la);
                c.case(true, hash((name, a, b, fl, la)));
                c.check(got == want, || {
                    format!("{name} between {} and {} (include first {fl:?}, last {la:?}): {got}, counting gives {want}", day(a), day(b))
                });
                let back = f(Q::Between(nd(b), nd(a), fl, la)).n();
                c.check(a == b || back == -got, || format!("{name} {} / {}: {got} one way, {back} the other", day(a), day(b)));
            });
        }
    }
}

pub fn c08(c: &mut Ctx) {
    c.rule = "market or stub calendar x date pair x nine flag settings; every case counts days one by one; keys are distinct (calendar, dates, flags)".into();
    c.require(20_000);
    let ms = markets::all();
    for m in &ms {
        let open = |n: i64| m.open(nd(n));
        for t in 0..c.n(24, 400) {
            let a = c.rng.range(lo() + 10, hi() - 2000);
            let b = match t % 6 {
                0 => a,
                1 => a + 1,
                2 => a + c.rng.range(2, 10),
                3 => a - c.rng.range(1, 40),
                4 => a + c.rng.range(10, 400),
                _ => a + c.rng.range(-6, 6),
            };
            between_case(c, m.key, &m.f, a, b.clamp(lo(), hi()), &open);
        }
        // additivity over a split, and a long span
        for _ in 0..c.n(8, 100) {
            let a = c.rng.range(lo(), hi() - 3000);
            let b = a + c.rng.range(0, 700);
            let d = b + c.rng.range(0, 700);
            c.guard(|| format!("{} additivity {} {} {}", m.key, day(a), day(b), day(d)), |c| {
                let g = |x, y| (m.f)(Q::Between(nd(x), nd(y), None, None)).n();
                c.case(true, hash((m.key, a, b, d, "add")));
                let (x, y, z) = (g(a, b), g(b, d), g(a, d));
                c.check(x + y == z, || format!("{}: {x} + {y} != {z} over {} {} {}", m.key, day(a), day(b), day(d)));
            });
        }
        c.guard(|| format!("{} over the whole range", m.key), |c| {
            let want = (lo()..hi()).filter(|n| open(*n)).count() as i64;
            let got = (m.f)(Q::Between(nd(lo()), nd(hi()), None, None)).n();
            c.case(true, hash((m.key, "all")));
            c.check(got == want, || format!("{}: {got} business days 1901-2199, counting gives {want}", m.key));
            c.count("whole-range counts", 1);
        });
        // closings and working weekends as endpoints
        let special: Vec<i64> = (num(2018, 1, 1)..num(2019, 1, 1)).filter(|n| !open(*n)).collect();
        for _ in 0..c.n(6, 60) {
            let a = *c.rng.pick(&special);
            let b = *c.rng.pick(&special);
            between_case(c, m.key, &m.f, a, b, &open);
        }
    }
    // the same interval through one calendar after another
    for _ in 0..c.n(1000, 20_000) {
        let a = c.rng.range(lo() + 100, hi() - 100);
        let b = a + c.rng.range(-30, 30);
        let stub = random_stub(c.rng.next(), 0.3);
        let asked: Vec<&Market> = (0..3).map(|_| c.rng.pick(&ms)).collect();
        for fl in flags() {
            for la in flags() {
                let mut one = |name: &str, got: &dyn Fn() -> i64, open: &dyn Fn(i64) -> bool| {
                    c.guard(|| format!("{name} between {} and {} flags {fl:?}/{la:?}", day(a), day(b)), |c| {
                        let (got, want) = (got(), expect_between(open, a, b, fl, la));
                        c.case(true, hash((name, a, b, fl, la)));
                        c.check(got == want, || format!("{name} between {} and {} (include first {fl:?}, last {la:?}), asked in turn with others: {got}, counting gives {want}", day(a), day(b)));
                    });
                };
                let q = Q::Between(nd(a), nd(b), fl, la);
                for m in &asked {
                    one(m.key, &|| (m.f)(q).n(), &|n| m.open(nd(n)));
                }
                one(&stub.name, &|| ask(&stub, q).n(), &|n| stub.is_business_day(nd(n)));
            }
        }
        c.count("intervals asked of several calendars in turn", 1);
    }
    for t in 0..c.n(60, 1000) {
        let s = random_stub(c.seed * 1000 + t, *c.rng.pick(&[0.0, 0.2, 0.5, 1.0]));
        let open = |n: i64| s.is_business_day(nd(n));
        let f = |q| ask(&s, q);
        for _ in 0..6 {
            let a = c.rng.range(num(1, 6, 1), num(9000, 1, 1));
            let b = a + c.rng.range(-80, 80);
            between_case(c, &s.name, &f, a, b, &open);
        }
        c.count("stub calendars", 1);
    }
    // spans far longer than any market's tables
    let period = |k: i64, name: &str| Stub { open: Arc::new(move |d| nn(d) % k != 0), weekend: Arc::new(|_| false), name: name.into() };
    let far = num(262_000, 1, 1) - num(-262_000, 1, 1);
    let mut spans: Vec<i64> = (0..5).map(|_| c.rng.range(100_000, 1_200_000)).collect();
    spans.push(c.n(17_000_000, far as u64) as i64);
    for len in spans {
        let k = *c.rng.pick(&[2, 7, 1_000_000_007]);
        let s = period(k, &format!("stub closed every {k} days"));
        let a = num(-262_000, 1, 1) + c.rng.range(0, far - len);
        let back = c.rng.chance(0.5);
        c.guard(|| format!("{}: {len} days from {}", s.name, day(a)), |c| {
            let q = if back { Q::Between(nd(a + len), nd(a), None, None) } else { Q::Between(nd(a), nd(a + len), None, None) };
            let got = ask(&s, q).n();
            // closed days of [a, a+len), multiples of k
            let want = len - ((a + len - 1).div_euclid(k) - (a - 1).div_euclid(k));
            let want = if back { -want } else { want };
            c.case(true, hash((a, len, k, back)));
            c.count("days in very long spans", len as u64);
            c.check(got == want, || format!("{}: {got} business days from {} over {len} days{}, closed form {want}", s.name, day(a), if back { " asked backwards" } else { "" }));
        });
    }
    c.sample(|| format!("UnitedKingdom 2023-04-01..2023-04-30 default flags -> {}", ask(&calendar::unitedkingdom::UnitedKingdom::default(), Q::Between(nd(num(2023, 4, 1)), nd(num(2023, 4, 30)), None, None)).n()));
}

pub fn c09(c: &mut Ctx) {
    c.rule = "all months of years 1-9999 (last day), all market handles x months 1901-2199 and stub calendars (business end); non-trivial: the month's last day is closed, or the month is February or December".into();
    c.require(50_000);
    c.exhaustive = true;
    let ms = markets::all();
    let mut k = 0usize;
    for y in 1..=9999i64 {
        for m in 1..=12 {
            let d = c.rng.range(1, civil::dim(y, m));
            let mk = &ms[k % ms.len()];
            k += 1;
            for d in [1, d, civil::dim(y, m)] {
                c.guard(|| format!("{} last day of month of {y}-{m}-{d}", mk.key), |c| {
                    let got = (mk.f)(Q::LastDay(nd(num(y, m, d)))).d();
                    c.enumerated(m == 2 || m == 12);
                    c.check(nn(got) == num(y, m, civil::dim(y, m)), || format!("{}: last day of the month of {y:04}-{m:02}-{d:02} is {got}", mk.key));
                });
            }
        }
    }
    for mk in &ms {
        for y in FIRST..=LAST {
            for m in 1..=12 {
                let last = num(y, m, civil::dim(y, m));
                let d = num(y, m, c.rng.range(1, civil::dim(y, m)));
                c.guard(|| format!("{} end of month of {}", mk.key, day(d)), |c| {
                    let got = (mk.f)(Q::EndOfMonth(nd(d))).d();
                    let mut want = last;
                    while !mk.open(nd(want)) {
                        want -= 1;
                    }
                    c.enumerated(want != last);
                    c.check(nn(got) == want, || format!("{}: business end of month of {} is {got}, expected {}", mk.key, day(d), day(want)));
                    let ld = (mk.f)(Q::LastDay(nd(d))).d();
                    c.check(nn(ld) == last, || format!("{}: last day of month of {} is {ld}", mk.key, day(d)));
                });
            }
        }
    }
    // the same day through one calendar after another, and its likes in other months and years
    for _ in 0..c.n(8000, 150_000) {
        let n = c.rng.range(lo() + 400, hi() - 400);
        let Ymd(y, m, _) = from_num(n);
        let other = num(c.rng.range(y - 1, y + 1), if c.rng.chance(0.5) { m } else { c.rng.range(1, 12) }, 15);
        let stub = random_stub(c.rng.next(), 0.5);
        for _ in 0..3 {
            let mk = &ms[c.rng.below(ms.len() as u64) as usize];
            for d in [n, other, n] {
                let Ymd(y, m, _) = from_num(d);
                let last = num(y, m, civil::dim(y, m));
                let back = |open: &dyn Fn(i64) -> bool| (0..).map(|k| last - k).find(|n| open(*n)).unwrap();
                c.guard(|| format!("{} end of month of {} among others", mk.key, day(d)), |c| {
                    let got = nn((mk.f)(Q::EndOfMonth(nd(d))).d());
                    let want = back(&|n| mk.open(nd(n)));
                    c.check(got == want, || format!("{}: business end of month of {} is {}, expected {}", mk.key, day(d), day(got), day(want)));
                    let got = nn(ask(&stub, Q::EndOfMonth(nd(d))).d());
                    let want = back(&|n| stub.is_business_day(nd(n)));
                    c.check(got == want, || format!("{}: business end of month of {} is {}, expected {}", stub.name, day(d), day(got), day(want)));
                    let got = nn((mk.f)(Q::LastDay(nd(d))).d());
                    c.check(got == last, || format!("{}: last day of month of {} is {}", mk.key, day(d), day(got)));
                    c.evals += 1;
                    c.count("month ends asked of several calendars in turn", 1);
                });
            }
        }
    }
    for t in 0..c.n(3000, 60_000) {
        let s = random_stub(c.seed * 77 + t, *c.rng.pick(&[0.1, 0.4, 0.7, 0.9]));
        let y = c.rng.range(2, 9000);
        let m = c.rng.range(1, 12);
        let d = num(y, m, c.rng.range(1, civil::dim(y, m)));
        c.guard(|| format!("{} end of month of {}", s.name, day(d)), |c| {
            let got = nn(ask(&s, Q::EndOfMonth(nd(d))).d());
            let mut want = num(y, m, civil::dim(y, m));
            while !s.is_business_day(nd(want)) {
                want -= 1;
            }
            if from_num(want).1 != m {
                c.count("month fully closed", 1);
            }
            c.case(true, hash((t, d)));
            c.check(got == want, || format!("{}: business end of month of {} is {}, expected {}", s.name, day(d), from_num(got), day(want)));
        });
    }
    c.sample(|| format!("UnitedKingdom December 2022: {}", ask(&calendar::unitedkingdom::UnitedKingdom::default(), Q::EndOfMonth(nd(num(2022, 12, 5)))).d()));
}
