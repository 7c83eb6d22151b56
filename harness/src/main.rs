//! One process per property: the parent spawns a worker that runs the real
//! code under the monitor and turns crashes and hangs into verdicts.
mod bond;
mod cal;
mod civil;
mod curve;
mod date;
mod dd;
mod fin;
mod leave;
mod markets;
mod math;
mod meanwhile;
mod memory;
mod misc;
mod refcal;
mod rt;
mod run;
mod user;

use rt::*;

/// What a calendar must be to be registered in markets.rs: anything here.
pub trait Shared {}
impl<T> Shared for T {}
pub type MarketFn = Box<dyn Fn(markets::Q) -> markets::A>;

fn props() -> Vec<run::Prop> {
    vec![
        ("C01", cal::c01),
        ("C02", cal::c02),
        ("C03", cal::c03),
        ("C04", cal::c04),
        ("C05", cal::c05),
        ("C06", cal::c06),
        ("C07", cal::c07),
        ("C08", cal::c08),
        ("C09", cal::c09),
        ("C10", user::c10),
        ("D01", date::d01),
        ("D02", date::d02),
        ("D03", date::d03),
        ("D04", date::d04),
        ("D05", date::d05),
        ("M01", math::m01),
        ("M02", math::m02),
        ("M03", math::m03),
        ("M04", math::m04),
        ("M05", math::m05),
        ("M06", math::m06),
        ("M07", math::m07),
        ("M08", math::m08),
        ("T01", curve::t01),
        ("T02", curve::t02),
        ("T03", curve::t03),
        ("B01", bond::b01),
        ("B02", bond::b02),
        ("B03", bond::b03),
        ("B04", bond::b04),
        ("R02", misc::r02),
        ("R03", misc::r03),
        ("R04", leave::r04),
    ]
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::process::exit(run::dispatch(&props(), &a).unwrap_or_else(|| match a.get(1).map(String::as_str) {
        Some("diff") => {
            diff(&a[2..]);
            0
        }
        Some("list") => {
            for p in props() {
                println!("{}", p.0);
            }
            0
        }
        Some("memory") => memory::memory(),
        Some("canary") => memory::canary(a.get(2).map_or("", String::as_str)),
        Some("days") => {
            days();
            0
        }
        _ => {
            eprintln!("usage: harness run|worker|list|diff ID");
            2
        }
    }));
}

/// Design-time tool: days on which calendars, above all those of one country, disagree.
fn days() {
    let refs = refcal::load();
    let ms = markets::all();
    let mut r = rt::Rng::new(5);
    let mut out = std::collections::BTreeSet::new();
    let open = |m: &markets::Market, n: i64| refs[&cal::ref_key(m.key)].is_open(n);
    let (lo, hi) = (civil::num(1990, 1, 1), civil::num(2061, 1, 1));
    for (i, a) in ms.iter().enumerate() {
        let closed: Vec<i64> = (lo..hi).filter(|n| civil::wd(*n) < 5 && !open(a, *n)).collect();
        for _ in 0..3.min(closed.len()) {
            out.insert(*r.pick(&closed));
        }
        for b in &ms[..i] {
            if a.module == b.module {
                let apart: Vec<i64> = (lo..hi).filter(|n| open(a, *n) != open(b, *n)).collect();
                for _ in 0..8.min(apart.len()) {
                    out.insert(*r.pick(&apart));
                }
            }
        }
    }
    out.iter().for_each(|n| println!("{}", cal::day(*n)));
}

/// Design-time tool: where library and reference calendars differ.
fn diff(want: &[String]) {
    let refs = refcal::load();
    for m in markets::all() {
        if !want.is_empty() && !want.iter().any(|w| m.key.starts_with(w.as_str())) {
            continue;
        }
        let r = &refs[&cal::ref_key(m.key)];
        let mut k = 0;
        for n in cal::lo()..=cal::hi() {
            let got = attempt(|| m.open(nd(n)));
            if got != Ok(r.is_open(n)) {
                k += 1;
                if k < 20 {
                    println!("  {} {}: library {got:?}, reference {}", m.key, cal::day(n), r.is_open(n));
                }
            }
        }
        println!("== {} {k} differences", m.key);
    }
}
