//! R01: the same questions asked in different processes, orders, object
//! generations and threads must get bit-for-bit the same answers.
//!
//! A separate crate from the harness: it does not compile when a public type
//! stops being shareable between threads, and that is a verdict (run.sh).
#![allow(dead_code)]
#[path = "../../harness/src/civil.rs"]
mod civil;
#[path = "../../harness/src/markets.rs"]
mod markets;
#[path = "../../harness/src/rt.rs"]
mod rt;
#[path = "../../harness/src/run.rs"]
mod run;
mod share;
mod world;

use rt::*;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::{Read, Write as _};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::{Barrier, Mutex};
use std::time::{Duration, Instant};
use world::{Query, World};

/// Demanded of every calendar registered in markets.rs.
pub trait Shared: Send + Sync {}
impl<T: Send + Sync> Shared for T {}
pub type MarketFn = Box<dyn Fn(markets::Q) -> markets::A + Send + Sync>;

const TSAN: [(&str, &str); 1] = [("TSAN_OPTIONS", "exitcode=66 halt_on_error=1")];
const LIES: usize = 40;

fn shuffle<T>(r: &mut Rng, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        v.swap(i, r.below(i as u64 + 1) as usize);
    }
}

/// Asks everything in one process and one thread; prints the answers.
/// mode: forward, reverse, random, fresh (a new object for every question),
/// twice (each question repeated with another one in between).
fn sequential(seed: u64, scale: u64, mode: &str, order: u64) {
    let w = World::new(seed, scale);
    let qs = w.queries();
    let mut idx: Vec<usize> = (0..qs.len()).collect();
    let mut r = Rng::new(order);
    match mode {
        "forward" => {}
        "reverse" => idx.reverse(),
        // the same question to one new object after another, each in the
        // memory of the one before
        "churn" => {
            shuffle(&mut r, &mut idx);
            // the same type's objects next to each other, or any order
            let any = order % 2 == 0;
            idx.sort_by_key(|i| (qs[*i].k, qs[*i].a, qs[*i].b, if any { 0 } else { qs[*i].obj }));
        }
        _ => shuffle(&mut r, &mut idx),
    }
    let mut ans = vec![0u64; qs.len()];
    let mut again = 0u64;
    let mut bad = vec![];
    for (n, i) in idx.iter().enumerate() {
        let q = &qs[*i];
        ans[*i] = if mode == "fresh" || mode == "churn" { w.fresh(q.obj).ask(q) } else { w.shared(q.obj).ask(q) };
        if mode == "twice" {
            let other = &qs[idx[(n * 7919 + 13) % idx.len()]];
            let _ = w.shared(other.obj).ask(other);
            again += 1;
            let second = w.shared(q.obj).ask(q);
            if second != ans[*i] && bad.len() < LIES {
                bad.push(*i as u64);
            }
        }
    }
    report(&ans, &bad, &BTreeMap::from([("repeated questions".to_string(), again)]));
}

/// Each question of `which` is the only one its process asks.
fn lone(seed: u64, scale: u64, i: usize) {
    let w = World::new(seed, scale);
    let q = &w.queries()[i];
    report(&[w.fresh(q.obj).ask(q)], &[], &BTreeMap::new());
}

/// All questions by all threads on shared objects, in different orders.
fn threads(seed: u64, scale: u64, n: usize, order: u64, hot: bool) {
    let w = World::new(seed, scale);
    let qs = w.queries();
    let objs = w.objects();
    let inflight: Vec<AtomicUsize> = (0..objs).map(|_| AtomicUsize::new(0)).collect();
    let last: Vec<AtomicU64> = (0..objs).map(|_| AtomicU64::new(0)).collect();
    let (overlaps, handoffs, total) = (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0));
    let windows: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    let barrier = Barrier::new(n);
    let results: Mutex<Vec<Vec<(usize, u64)>>> = Mutex::new(vec![]);
    // hot: few objects, everybody at once, many rounds
    let by_obj: Vec<Vec<usize>> = {
        let mut v = vec![vec![]; objs];
        for (i, q) in qs.iter().enumerate() {
            v[q.obj].push(i);
        }
        v
    };
    std::thread::scope(|s| {
        for t in 0..n {
            let (w, qs, inflight, last, windows, barrier, results, by_obj) = (&w, &qs, &inflight, &last, &windows, &barrier, &results, &by_obj);
            let (overlaps, handoffs, total) = (&overlaps, &handoffs, &total);
            s.spawn(move || {
                let mut r = Rng::new(order.wrapping_mul(31).wrapping_add(t as u64));
                let mut mine = vec![];
                let mut win = HashSet::new();
                let mut ask = |i: usize, r: &mut Rng| {
                    let q: &Query = &qs[i];
                    if r.chance(0.05) {
                        std::thread::yield_now();
                    }
                    let o = w.shared(q.obj);
                    if inflight[q.obj].fetch_add(1, Relaxed) > 0 {
                        overlaps.fetch_add(1, Relaxed);
                    }
                    let a = o.ask(q);
                    inflight[q.obj].fetch_sub(1, Relaxed);
                    let old = last[q.obj].load(Relaxed);
                    last[q.obj].store(old << 4 | t as u64 + 1, Relaxed);
                    if old & 15 != t as u64 + 1 && old != 0 {
                        handoffs.fetch_add(1, Relaxed);
                    }
                    if win.len() < 200_000 {
                        win.insert(hash((q.obj, (old << 4 | t as u64 + 1) & 0xffff_ffff)));
                    }
                    mine.push((i, a));
                };
                barrier.wait();
                if hot {
                    for (o, list) in by_obj.iter().enumerate() {
                        if list.is_empty() || hash((order, o)) % 3 != 0 {
                            continue;
                        }
                        barrier.wait();
                        for _ in 0..8 {
                            let k = r.below(list.len() as u64) as usize;
                            for j in 0..list.len().min(24) {
                                ask(list[(k + j) % list.len()], &mut r);
                            }
                        }
                    }
                } else {
                    let mut idx: Vec<usize> = (0..qs.len()).collect();
                    shuffle(&mut r, &mut idx);
                    for i in idx {
                        ask(i, &mut r);
                    }
                }
                total.fetch_add(mine.len() as u64, Relaxed);
                windows.lock().unwrap().extend(win);
                results.lock().unwrap().push(mine);
            });
        }
    });
    // answers: one per question; disagreeing ones are reported as lies
    let mut ans = vec![u64::MAX; qs.len()];
    let mut bad = BTreeSet::new();
    for l in results.into_inner().unwrap() {
        for (i, a) in l {
            if ans[i] == u64::MAX {
                ans[i] = a;
            } else if ans[i] != a {
                bad.insert(i as u64);
            }
        }
    }
    let bad: Vec<u64> = bad.into_iter().take(LIES).collect();
    let c = BTreeMap::from([
        ("questions asked by threads".to_string(), total.into_inner()),
        ("questions overlapping another on the same object".to_string(), overlaps.into_inner()),
        ("handoffs of an object between threads".to_string(), handoffs.into_inner()),
        ("distinct interleaving windows (last 8 askers of an object)".to_string(), windows.into_inner().unwrap().len() as u64),
    ]);
    report(&ans, &bad, &c);
}

/// All threads ask the same two questions, of one object or of two of a kind,
/// over and over at the same moment: where a memory of two parts tears.
fn duels(seed: u64, scale: u64, n: usize, order: u64) {
    let w = World::new(seed, scale);
    let qs = w.queries();
    let mut of_obj = vec![vec![]; w.objects()];
    let mut of_kind: BTreeMap<&str, Vec<usize>> = BTreeMap::new();
    for (i, q) in qs.iter().enumerate() {
        of_obj[q.obj].push(i);
        of_kind.entry(w.kind(q.obj)).or_default().push(i);
    }
    let mut r = Rng::new(order);
    let mut pairs = vec![];
    for (o, list) in of_obj.iter().enumerate() {
        // every object, or its turn comes in another round
        if list.is_empty() || (o as u64 + order) % 3 != 0 {
            continue;
        }
        let kind = &of_kind[w.kind(o)];
        for k in 0..4 {
            let i = *r.pick(list);
            let mut j = if k < 2 { *r.pick(list) } else { *r.pick(kind) };
            if k == 3 {
                // the same question of another object of the kind
                let o2 = qs[j].obj;
                j = of_obj[o2].iter().copied().find(|x| (qs[*x].k, qs[*x].a, qs[*x].b) == (qs[i].k, qs[i].a, qs[i].b)).unwrap_or(j);
            }
            pairs.push([i, j]);
        }
    }
    let barrier = Barrier::new(n);
    let results: Mutex<Vec<Vec<[u64; 2]>>> = Mutex::new(vec![]);
    let bad: Mutex<BTreeSet<u64>> = Mutex::default();
    let total = AtomicU64::new(0);
    std::thread::scope(|s| {
        for t in 0..n {
            let (w, qs, pairs, barrier, results, bad, total) = (&w, &qs, &pairs, &barrier, &results, &bad, &total);
            s.spawn(move || {
                let mut mine = vec![];
                for pair in pairs {
                    let objs = pair.map(|i| w.shared(qs[i].obj));
                    barrier.wait();
                    let first = [0, 1].map(|k| objs[k].ask(&qs[pair[k]]));
                    // each thread in a rhythm of its own, for a bounded time
                    let start = Instant::now();
                    let mut x = t as u32 + 1;
                    let mut asked = 2;
                    while asked < 400 && start.elapsed() < Duration::from_millis(2) {
                        for _ in 0..8 {
                            x = x.wrapping_mul(1_664_525).wrapping_add(1_013_904_223);
                            let k = (x >> 28 & 1) as usize;
                            if objs[k].ask(&qs[pair[k]]) != first[k] {
                                bad.lock().unwrap().insert(pair[k] as u64);
                            }
                        }
                        asked += 8;
                    }
                    total.fetch_add(asked, Relaxed);
                    mine.push(first);
                }
                results.lock().unwrap().push(mine);
            });
        }
    });
    let mut ans = vec![u64::MAX; qs.len()];
    let mut bad = bad.into_inner().unwrap();
    for l in results.into_inner().unwrap() {
        for (pair, a) in pairs.iter().zip(l) {
            for k in 0..2 {
                let slot = &mut ans[pair[k]];
                if *slot != u64::MAX && *slot != a[k] {
                    bad.insert(pair[k] as u64);
                }
                *slot = a[k];
            }
        }
    }
    let bad: Vec<u64> = bad.into_iter().take(LIES).collect();
    let c = BTreeMap::from([("pairs of questions all threads asked at once".to_string(), pairs.len() as u64), ("questions asked in such duels".to_string(), total.into_inner())]);
    report(&ans, &bad, &c);
}

unsafe extern "C" {
    fn sched_setaffinity(pid: i32, size: usize, mask: *const u64) -> i32;
    fn sched_getaffinity(pid: i32, size: usize, mask: *mut u64) -> i32;
}
/// Leaves this process one of its processors only.
fn one_processor() -> bool {
    let mut m = [0u64; 16];
    unsafe {
        if sched_getaffinity(0, 128, m.as_mut_ptr()) < 0 {
            return false;
        }
        let word = m.iter().position(|x| *x != 0).unwrap_or(0);
        let bit = 1 << m[word].trailing_zeros();
        m = [0; 16];
        m[word] = bit;
        sched_setaffinity(0, 128, m.as_ptr()) == 0 && std::thread::available_parallelism().is_ok_and(|n| n.get() == 1)
    }
}

fn report(ans: &[u64], bad: &[u64], counters: &BTreeMap<String, u64>) {
    let mut o = vec![];
    o.extend((ans.len() as u64).to_le_bytes());
    ans.iter().for_each(|a| o.extend(a.to_le_bytes()));
    o.extend((bad.len() as u64).to_le_bytes());
    bad.iter().for_each(|a| o.extend(a.to_le_bytes()));
    for (k, v) in counters {
        o.extend(format!("{k}={v}\n").bytes());
    }
    std::io::stdout().write_all(&o).unwrap();
}

/// A deliberate data race: the thread sanitizer must report it.
fn canary() {
    static mut X: u64 = 0;
    let mut v = vec![];
    for t in 0..2u64 {
        v.push(std::thread::spawn(move || {
            for i in 0..10_000 {
                unsafe { std::ptr::write(&raw mut X, std::ptr::read(&raw const X) + i * t) };
            }
        }));
    }
    v.into_iter().for_each(|h| h.join().unwrap());
    report(&[0], &[], &BTreeMap::new());
}

/// Are clock, environment and files really disturbed in this process?
fn probe() {
    let year = || std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map_or(-1, |d| d.as_secs() as i64 / 31_557_600);
    let years: BTreeSet<i64> = (0..7).map(|_| year()).collect();
    let full = std::env::var_os("QUESTION_WITHOUT_ANSWER").is_some();
    let there = std::path::Path::new("no/such/file").exists() && std::fs::read("no/such/file").is_ok_and(|x| !x.is_empty());
    report(&[u64::from(years.len() > 4 && full && there)], &[], &BTreeMap::new());
}

pub struct Report {
    ans: Vec<u64>,
    bad: Vec<u64>,
    counters: BTreeMap<String, u64>,
}

enum Child {
    Done(Report),
    Died(String),
    Stuck { cpu: f64, wall: f64 },
}

fn cpu_seconds(pid: u32) -> f64 {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
    let rest: Vec<&str> = s.rsplit_once(')').map_or("", |x| x.1).split_whitespace().collect();
    let f = |i: usize| rest.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    (f(11) + f(12)) / 100.0
}

/// Runs this program again as a child and reads its report.
fn child(exe: &std::path::Path, args: &[String], env: &[(&str, &str)], wall: Duration) -> Child {
    let mut ch = Command::new(exe)
        .arg("ask")
        .args(args)
        .envs(env.iter().copied())
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .expect("cannot start a child process");
    let mut out = ch.stdout.take().unwrap();
    let mut err = ch.stderr.take().unwrap();
    let ro = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = out.read_to_end(&mut v);
        v
    });
    let re = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = err.read_to_end(&mut v);
        String::from_utf8_lossy(&v).into_owned()
    });
    let start = Instant::now();
    let (mut last_cpu, mut idle_since) = (0.0, Instant::now());
    let status = loop {
        if let Some(s) = ch.try_wait().unwrap() {
            break s;
        }
        let cpu = cpu_seconds(ch.id());
        if cpu > last_cpu + 0.05 {
            (last_cpu, idle_since) = (cpu, Instant::now());
        }
        // nothing runs any more, or far too long
        if idle_since.elapsed() > Duration::from_secs(60) || start.elapsed() > wall {
            let wall = start.elapsed().as_secs_f64();
            let idle = idle_since.elapsed().as_secs_f64();
            let _ = ch.kill();
            let _ = ch.wait();
            return Child::Stuck { cpu: if idle > 59.0 { 0.0 } else { cpu }, wall };
        }
        std::thread::sleep(Duration::from_millis(if start.elapsed() < Duration::from_millis(200) { 1 } else { 20 }));
    };
    let (out, err) = (ro.join().unwrap(), re.join().unwrap());
    if !status.success() {
        let race = err.contains("ThreadSanitizer: data race");
        let head: Vec<&str> = err.lines().filter(|l| !l.trim().is_empty()).take(if race { 30 } else { 6 }).collect();
        return Child::Died(format!("{status}{} {}", if race { " (data race)" } else { "" }, head.join(" | ")));
    }
    let word = |i: usize| u64::from_le_bytes(out[i * 8..i * 8 + 8].try_into().unwrap());
    let n = word(0) as usize;
    let ans = (1..=n).map(word).collect();
    let m = word(n + 1) as usize;
    let bad = (n + 2..n + 2 + m).map(word).collect();
    let text = String::from_utf8_lossy(&out[(n + 2 + m) * 8..]).into_owned();
    let noted = err.lines().filter_map(|l| l.strip_prefix("disturb:"));
    let counters = text.lines().chain(noted).filter_map(|l| l.split_once('=')).filter_map(|(k, v)| Some((k.to_string(), v.parse().ok()?))).collect();
    Child::Done(Report { ans, bad, counters })
}

fn r01(c: &mut Ctx) {
    c.rule = "one question of the universe (an object, an operation, arguments), distinct by construction; non-trivial when it was answered in at least two different histories and the answers were compared bit for bit".into();
    c.require(5000);
    share::all();
    let tsan = std::env::var("CONC_TSAN").ok();
    let disturb = std::env::var("CONC_DISTURB").ok();
    let rounds = c.n(1, 6);
    let scale = c.n(2, 6);
    let start = Instant::now();
    let (enough, wall) = if c.thorough() { (5400, Duration::from_secs(1500)) } else { (360, Duration::from_secs(200)) };
    let exe = std::env::current_exe().unwrap();
    let mut hist: BTreeSet<u64> = BTreeSet::new();
    if let Some(t) = &tsan {
        // the sanitizer must see a race that is there
        match child(t.as_ref(), &["canary".into()], &TSAN, wall) {
            Child::Died(how) if how.contains("data race") => c.count("thread sanitizer self-test: planted race reported", 1),
            _ => {
                c.inconclusive = Some("the thread sanitizer does not report a planted race".into());
                return;
            }
        }
    }
    if let Some(so) = &disturb {
        match child(&exe, &["probe".into()], &[("LD_PRELOAD", so)], wall) {
            Child::Done(r) if r.ans == [1] => c.count("interposer self-test: clock and environment disturbed", 1),
            _ => {
                c.inconclusive = Some("the clock and environment interposer does not work".into());
                return;
            }
        }
    }
    for round in 0..rounds {
        let seed = c.seed.wrapping_mul(1000) + round;
        let w = World::new(seed, scale);
        let qs = w.queries();
        let base = |m: &str, o: u64| vec![m.to_string(), seed.to_string(), scale.to_string(), o.to_string()];
        let mut runs: Vec<(String, Vec<String>, Vec<(&str, &str)>, std::path::PathBuf)> = vec![];
        for (m, o) in [("forward", 0), ("reverse", 0), ("random", seed + 1), ("random", seed + 2), ("twice", seed + 3), ("fresh", seed + 4), ("churn", seed | 1), ("churn", seed & !1)] {
            let env = if o == seed + 2 { vec![("TZ", "Pacific/Kiritimati"), ("LANG", "tr_TR.UTF-8"), ("LC_ALL", "de_DE.UTF-8"), ("RUST_BACKTRACE", "1")] } else { vec![] };
            runs.push((format!("{m} order in one thread"), base(m, o), env, exe.clone()));
        }
        runs.push(("random order on one processor".into(), base("single", seed + 5), vec![], exe.clone()));
        for (k, n) in [(30, "8"), (31, "2")] {
            let mut a = base("duels", seed + k);
            a.push(n.into());
            runs.push((format!("duels of {n} threads"), a, vec![], exe.clone()));
        }
        if let Some(so) = &disturb {
            for o in [seed + 6, seed + 7] {
                let name = "random order under a jumping clock and a full environment";
                runs.push((name.into(), base("random", o), vec![("LD_PRELOAD", so)], exe.clone()));
            }
        }
        for k in 0..c.n(2, 4) {
            for m in ["threads", "hot"] {
                let n = [8, 16, 3, 12][k as usize % 4];
                let mut a = base(m, seed + 10 + k);
                a.push(n.to_string());
                runs.push((format!("{m}, {n} threads"), a, vec![], exe.clone()));
            }
        }
        if let Some(t) = &tsan {
            for m in ["threads", "hot"] {
                let mut a = base(m, seed + 20);
                a.push("8".into());
                runs.push((format!("{m}, 8 threads, thread sanitizer"), a, TSAN.to_vec(), t.into()));
            }
        }
        let mut reference: Vec<u64> = vec![];
        for (name, args, env, exe) in runs {
            PROGRESS.fetch_add(1, Relaxed);
            let so_far = start.elapsed().as_secs();
            if c.violations > 0 && so_far > 60 {
                return;
            }
            if so_far > enough {
                c.count("histories left out because questions took too long", 1);
                continue;
            }
            match child(&exe, &args, &env, wall) {
                Child::Died(how) => c.violate(format!("{name} (seed {seed}): the process died: {how}")),
                Child::Stuck { cpu, wall } if cpu == 0.0 => {
                    c.violate(format!("{name} (seed {seed}): no progress for a minute, {wall:.0} s after the start: blocked"));
                    return;
                }
                Child::Stuck { cpu, wall } => {
                    println!("note: {name}: not finished after {wall:.0} s ({cpu:.0} s of CPU)");
                    c.count("histories not finished in time", 1);
                }
                Child::Done(r) => {
                    for i in &r.bad {
                        let q = &qs[*i as usize];
                        c.violate(format!("{name} (seed {seed}): different answers to the same question: {}", w.describe(q)));
                    }
                    for (k, v) in &r.counters {
                        c.count(k, *v);
                    }
                    c.count("processes", 1);
                    hist.insert(hash(&args));
                    if reference.is_empty() {
                        reference = r.ans;
                        continue;
                    }
                    let mut said = 0;
                    let mut n = 0;
                    for (i, (a, b)) in reference.iter().zip(&r.ans).enumerate() {
                        if *b == u64::MAX {
                            continue;
                        }
                        n += 1;
                        if a != b && said < LIES {
                            said += 1;
                            c.violate(format!("{name} (seed {seed}): another answer than in forward order: {} ({a:x} / {b:x})", w.describe(&qs[i])));
                        }
                    }
                    c.count("answers compared", n);
                }
            }
        }
        if reference.is_empty() {
            c.inconclusive = Some("no history was finished".into());
            return;
        }
        for _ in &qs {
            c.enumerated(true);
        }
        c.count("distinct answers", reference.iter().collect::<HashSet<_>>().len() as u64);
        // the only question of its process
        let k = c.n(480, 1500).min(qs.len() as u64);
        let mut r = Rng::new(seed + 99);
        let mut ids: Vec<usize> = (0..qs.len()).collect();
        shuffle(&mut r, &mut ids);
        ids.truncate(k as usize);
        let next = AtomicUsize::new(0);
        let found: Mutex<Vec<(usize, String)>> = Mutex::new(vec![]);
        let stop = AtomicBool::new(false);
        std::thread::scope(|s| {
            for _ in 0..8 {
                s.spawn(|| loop {
                    let j = next.fetch_add(1, Relaxed);
                    if j >= ids.len() || stop.load(Relaxed) {
                        return;
                    }
                    let i = ids[j];
                    let mut a = vec!["lone".to_string(), seed.to_string(), scale.to_string(), "0".into()];
                    a.push(i.to_string());
                    match child(&exe, &a, &[], wall) {
                        Child::Done(x) if x.ans == [reference[i]] => {}
                        Child::Done(_) => found.lock().unwrap().push((i, "another answer as the only question of a process".into())),
                        Child::Died(h) => found.lock().unwrap().push((i, format!("died as the only question of a process: {h}"))),
                        Child::Stuck { .. } => {
                            found.lock().unwrap().push((i, "blocked as the only question of a process".into()));
                            stop.store(true, Relaxed);
                        }
                    }
                });
            }
        });
        c.count("questions that were the only one of their process", k);
        for (i, what) in found.into_inner().unwrap() {
            c.violate(format!("seed {seed}: {what}: {}", w.describe(&qs[i])));
        }
        for (k, v) in w.kinds() {
            c.count(&format!("questions about {k}"), v);
        }
        if round == 0 {
            for i in ids.iter().take(8) {
                let q = &qs[*i];
                c.sample(|| w.describe(q));
            }
        }
    }
    c.count("distinct histories", hist.len() as u64);
    if std::env::var_os("CONC_MIRI").is_some() {
        miri(c);
    }
    c.assumptions.push("interleavings are those the scheduler and the injected yields produced; the counters say how many".into());
    if c.violations == 0 && c.inconclusive.is_none() && c.counters.get("handoffs of an object between threads").copied().unwrap_or(0) < 1000 {
        c.inconclusive = Some("threads hardly met on any object".into());
    }
}

/// A sample of the threaded histories under the interpreter, for undefined
/// behaviour and data races only: it perturbs floating-point functions on purpose.
fn miri(c: &mut Ctx) {
    for k in 0..4u64 {
        PROGRESS.fetch_add(1, Relaxed);
        let o = Command::new("timeout")
            .args(["900", "cargo", "+nightly", "miri", "run", "--offline", "--target-dir", "target/miri", "--", "ask", "threads"])
            .args([(c.seed + k).to_string(), "1".into(), "7".into(), "3".into()])
            .current_dir(env!("CARGO_MANIFEST_DIR"))
            .env("CONC_SUB", "100")
            .env("MIRIFLAGS", format!("-Zmiri-disable-isolation -Zmiri-seed={k}"))
            .stdin(Stdio::null())
            .output();
        let Ok(o) = o else { return c.count("interpreter runs that did not work", 1) };
        let e = String::from_utf8_lossy(&o.stderr);
        if e.contains("Undefined Behavior") {
            let head: Vec<&str> = e.lines().skip_while(|l| !l.contains("Undefined Behavior")).take(12).collect();
            c.violate(format!("the interpreter reports undefined behaviour: {}", head.join(" | ")));
        } else if o.status.success() {
            c.count("interpreter (Miri) runs without undefined behaviour", 1);
        } else {
            c.count("interpreter runs that did not work", 1);
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(String::as_str) == Some("ask") {
        install_hook();
        let n = |i: usize| a.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
        match a[2].as_str() {
            "canary" => canary(),
            "probe" => probe(),
            "lone" => lone(n(3), n(4), n(6) as usize),
            "duels" => duels(n(3), n(4), n(6) as usize, n(5)),
            "single" => {
                let alone = one_processor();
                sequential(n(3), n(4), "random", n(5));
                eprintln!("disturb:processes left one processor={}", u64::from(alone));
            }
            m @ ("threads" | "hot") => threads(n(3), n(4), n(6) as usize, n(5), m == "hot"),
            m => sequential(n(3), n(4), m, n(5)),
        }
        return;
    }
    std::process::exit(run::dispatch(&[("R01", r01)], &a).unwrap_or(2));
}
