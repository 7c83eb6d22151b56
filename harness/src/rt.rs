//! Run-time support: seeded randomness, case bookkeeping, panic capture,
//! verdicts, evidence.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Instant;

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n.max(1)
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn real(&mut self, lo: f64, hi: f64) -> f64 {
        lo + (hi - lo) * self.unit()
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.unit() < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len() as u64) as usize;
        &v[i]
    }
}

pub fn hash<T: std::hash::Hash>(t: T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

/// Marker payload prefix for panics raised on purpose by monitors.
pub const MONITOR: &str = "MONITOR:";

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let loc = info.location().map_or("?".to_string(), |l| format!("{}:{}", l.file(), l.line()));
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

pub fn take_panic() -> (String, String) {
    LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or(("?".into(), "?".into()))
}

/// Runs `f`; a panic of the library becomes Err(message).  A panic that
/// originates in the harness itself is a harness error and is propagated.
pub fn attempt<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(payload) => {
            let (msg, loc) = take_panic();
            if loc.starts_with("src/") && !msg.starts_with(MONITOR) {
                LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
                std::panic::resume_unwind(payload);
            }
            if msg.starts_with(MONITOR) { Err(msg) } else { Err(format!("panicked at {loc}: {msg}")) }
        }
    }
}

/// Progress of the case in flight, for the watchdog and crash reports.
pub static PROGRESS: AtomicU64 = AtomicU64::new(0);
/// Set while a guarded case is running.
pub static IN_LIBRARY: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

#[derive(Clone, Copy, PartialEq)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    pub rng: Rng,
    pub evals: u64,
    nontrivial: u64,
    seen: HashSet<u64>,
    pub rule: String,
    pub samples: Vec<String>,
    pub counters: BTreeMap<String, u64>,
    pub violations: u64,
    pub first: Vec<String>,
    pub known: BTreeMap<String, (u64, String)>,
    allowed: Vec<(String, String)>, // (id, text) for this property
    pub exhaustive: bool,
    pub assumptions: Vec<String>,
    start: Instant,
    trace: Option<std::fs::File>,
    min_nontrivial: u64,
    pub inconclusive: Option<String>,
    /// Report a minute after the start once something is wrong, however much there is left to do.
    pub early: bool,
}

impl Ctx {
    pub fn new(prop: &str, tier: Tier, seed: u64) -> Self {
        let allowed = include_str!("../../known_findings.txt")
            .lines()
            .filter_map(|l| l.strip_prefix("finding: property="))
            .filter_map(|l| {
                let (p, rest) = l.split_once(" id=")?;
                let (id, text) = rest.split_once(' ')?;
                (p == prop).then(|| (id.to_string(), text.to_string()))
            })
            .collect();
        Ctx {
            prop: prop.into(),
            tier,
            seed,
            rng: Rng::new(seed ^ hash(prop)),
            evals: 0,
            nontrivial: 0,
            seen: HashSet::new(),
            rule: String::new(),
            samples: vec![],
            counters: BTreeMap::new(),
            violations: 0,
            first: vec![],
            known: BTreeMap::new(),
            allowed,
            exhaustive: false,
            assumptions: vec![],
            start: Instant::now(),
            trace: std::env::var_os("HARNESS_TRACE").and_then(|p| std::fs::File::create(p).ok()),
            min_nontrivial: 2,
            inconclusive: None,
            early: false,
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        // `quick` is the unit of the budgets; a quick run takes as many as make some 10 s
        let units = match self.prop.as_str() {
            "C10" | "M02" | "M03" | "M04" | "T01" | "R02" => 40,
            "C08" | "C09" | "D02" | "D04" | "D05" | "M06" | "M07" | "T03" | "B03" | "B04" => 20,
            "M01" | "M05" | "M08" | "M09" | "T02" => 12,
            _ => 6,
        };
        if self.thorough() { thorough } else { (units * quick).min(quick.max(thorough)) }
    }
    pub fn require(&mut self, n: u64) {
        self.min_nontrivial = n;
    }
    pub fn count(&mut self, what: &str, k: u64) {
        if let Some(c) = self.counters.get_mut(what) {
            *c += k;
        } else {
            self.counters.insert(what.to_string(), k);
        }
    }
    /// One evaluated case of an enumeration whose cases are distinct by construction.
    pub fn enumerated(&mut self, nontrivial: bool) {
        self.evals += 1;
        self.nontrivial += u64::from(nontrivial);
    }
    /// One evaluated random case; `key` identifies it.
    pub fn case(&mut self, nontrivial: bool, key: u64) {
        self.evals += 1;
        if nontrivial && self.seen.insert(key) {
            self.nontrivial += 1;
        }
    }
    /// Keeps the largest value seen.
    pub fn gauge(&mut self, what: &str, v: u64) {
        let e = self.counters.entry(what.to_string()).or_insert(0);
        *e = (*e).max(v);
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 12 {
            let s = f();
            self.samples.push(s);
        }
    }
    pub fn violate(&mut self, detail: String) {
        self.violations += 1;
        if self.first.len() < 25 {
            self.first.push(detail);
        }
    }
    pub fn check(&mut self, ok: bool, detail: impl FnOnce() -> String) {
        if !ok {
            self.violate(detail());
        }
    }
    /// A failure that matches a listed finding's exact signature.
    pub fn known_or_violate(&mut self, id: &str, detail: impl FnOnce() -> String) {
        if self.allowed.iter().any(|(i, _)| i == id) {
            let e = self.known.entry(id.to_string()).or_insert((0, String::new()));
            e.0 += 1;
            if e.1.is_empty() {
                e.1 = detail();
            }
        } else {
            self.violate(detail());
        }
    }
    /// Runs one case; a library panic inside it is a violation.
    pub fn guard(&mut self, label: impl Fn() -> String, f: impl FnOnce(&mut Ctx)) {
        PROGRESS.fetch_add(1, Ordering::Relaxed);
        if let Some(f) = &self.trace {
            let mut l = label().into_bytes();
            l.resize(1000, b' ');
            let _ = std::os::unix::fs::FileExt::write_all_at(f, &l, 0);
        }
        let me = AssertUnwindSafe(&mut *self);
        IN_LIBRARY.store(true, Ordering::Relaxed);
        let r = attempt(move || {
            let me = me;
            f(me.0)
        });
        IN_LIBRARY.store(false, Ordering::Relaxed);
        if let Err(e) = r {
            let l = label();
            self.violate(format!("{l}: {e}"));
        }
        if self.early && self.violations > 0 && self.start.elapsed().as_secs() > 60 {
            self.assumptions.push("ended early: something was wrong".into());
            std::process::exit(self.finish());
        }
    }

    /// Prints the verdict, writes evidence and replay files; returns the exit code.
    pub fn finish(&mut self) -> i32 {
        let dir = std::path::Path::new(env!("CARGO_MANIFEST_DIR")).parent().unwrap().join("evidence");
        let _ = std::fs::create_dir_all(dir.join("replay"));
        if self.violations == 0 && self.nontrivial < self.min_nontrivial && self.inconclusive.is_none() {
            self.inconclusive =
                Some(format!("only {} non-trivial cases observed, {} required", self.nontrivial, self.min_nontrivial));
        }
        let mut j = String::from("{\n");
        let _ = write!(
            j,
            " \"property\": {},\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"exhaustive\": {},\n  \"samples\": [{}],\n  \"observed\": {{{}}}\n }},\n",
            q(&self.prop),
            if self.thorough() { "thorough" } else { "quick" },
            self.seed,
            self.evals,
            self.nontrivial,
            q(&self.rule),
            self.exhaustive,
            self.samples.iter().map(|s| q(s)).collect::<Vec<_>>().join(", "),
            self.counters.iter().map(|(k, v)| format!("{}: {}", q(k), v)).collect::<Vec<_>>().join(", ")
        );
        let _ = write!(
            j,
            " \"known_findings\": {{{}}},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
            self.known.iter().map(|(k, v)| format!("{}: {}", q(k), v.0)).collect::<Vec<_>>().join(", "),
            self.assumptions.iter().map(|s| q(s)).collect::<Vec<_>>().join(", "),
            self.start.elapsed().as_secs_f64(),
            self.violations
        );
        let _ = std::fs::write(dir.join(format!("{}.json", self.prop)), j);
        println!(
            "{}: {} evaluations, {} distinct non-trivial, {} violations, {:.1}s",
            self.prop,
            self.evals,
            self.nontrivial,
            self.violations,
            self.start.elapsed().as_secs_f64()
        );
        for (k, v) in &self.counters {
            println!("  observed {k}: {v}");
        }
        for (id, (n, ex)) in &self.known {
            let text = self.allowed.iter().find(|a| &a.0 == id).map_or("", |a| a.1.as_str());
            println!("KNOWN-FINDING: property={} {id}: {text} [{n} observations, e.g. {ex}]", self.prop);
        }
        let path = dir.join("replay").join(format!("{}.txt", self.prop));
        let _ = std::fs::remove_file(&path);
        if self.violations > 0 {
            let mut t = format!(
                "property={} tier={} seed={}\nre-run: VERIF_SEED={} VERIF_TIER={} ./run.sh {}\n{} violations; first ones:\n",
                self.prop,
                if self.thorough() { "thorough" } else { "quick" },
                self.seed,
                self.seed,
                if self.thorough() { "thorough" } else { "quick" },
                self.prop,
                self.violations
            );
            for v in &self.first {
                t.push_str("  ");
                t.push_str(v);
                t.push('\n');
            }
            let _ = std::fs::write(&path, &t);
            for v in self.first.iter().take(5) {
                println!("  violated: {v}");
            }
            println!("VIOLATION property={} replay={}", self.prop, path.display());
            return 1;
        }
        if let Some(why) = &self.inconclusive {
            println!("INCONCLUSIVE property={} {why}", self.prop);
            return 2;
        }
        0
    }
}

fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn nd(n: i64) -> chrono::NaiveDate {
    let c = crate::civil::from_num(n);
    chrono::NaiveDate::from_ymd_opt(c.0 as i32, c.1 as u32, c.2 as u32).expect("date in range")
}
pub fn qd(n: i64) -> qlab_time::date::Date {
    let c = crate::civil::from_num(n);
    qlab_time::date::Date::from_ymd(c.0 as i32, c.1 as u32, c.2 as u32).expect("MONITOR: library refuses a valid date")
}
/// Day number of a library date, read through its public fields.
pub fn qn(d: qlab_time::date::Date) -> i64 {
    crate::civil::num(i64::from(d.year()), i64::from(d.month()), i64::from(d.day()))
}
pub fn nn(d: chrono::NaiveDate) -> i64 {
    use chrono::Datelike;
    crate::civil::num(i64::from(d.year()), i64::from(d.month()), i64::from(d.day()))
}
