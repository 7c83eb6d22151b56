//! R04: asking leaves nothing behind.  Rounds of the same questions are asked
//! over and over while a counting allocator, the process's own books (threads,
//! descriptors, children, environment, signals, panic hook, floating point),
//! its output streams and every path it creates or writes (watch.c) are watched.
use crate::cal::day;
use crate::civil::num;
use crate::date::any_day;
use crate::fin::*;
use crate::markets::{self, Q};
use crate::math::Fl;
use crate::rt::*;
use crate::{bond, curve, math, misc};
use qlab_math::interpolation::linear::Linear;
use qlab_math::interpolation::spline::catmull_rom::CatmullRom;
use qlab_math::interpolation::spline::natural_cubic::NaturalCubic;
use qlab_time::day_count::{act_360::Act360, act_365::Act365, thirty_360::Thirty360, DayCount};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::io::Write;
use std::path::PathBuf;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
    static TAKEN: Cell<u64> = const { Cell::new(0) };
}

pub struct Counting;
fn book(bytes: i64, blocks: i64) {
    let _ = LIVE.try_with(|c| c.set(c.get() + bytes));
    let _ = BLOCKS.try_with(|c| c.set(c.get() + blocks));
    if blocks > 0 {
        let _ = TAKEN.try_with(|c| c.set(c.get() + 1));
    }
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        book(l.size() as i64, 1);
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        book(l.size() as i64, 1);
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        book(-(l.size() as i64), -1);
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        book(n as i64 - l.size() as i64, 0);
        unsafe { System.realloc(p, l, n) }
    }
}
#[global_allocator]
static COUNTING: Counting = Counting;

unsafe extern "C" {
    fn dlsym(h: *mut u8, name: *const u8) -> *mut u8;
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn close(fd: i32) -> i32;
}

/// What watch.c, when preloaded, has noted.
struct Paths {
    switch: extern "C" fn(i32),
    calls: extern "C" fn() -> u64,
    path: extern "C" fn(i32) -> *const std::ffi::c_char,
}
fn paths() -> Option<Paths> {
    let find = |name: &[u8]| Some(unsafe { dlsym(std::ptr::null_mut(), name.as_ptr()) }).filter(|p| !p.is_null());
    let (a, b, d) = (find(b"watch_switch\0")?, find(b"watch_calls\0")?, find(b"watch_path\0")?);
    unsafe { Some(Paths { switch: std::mem::transmute(a), calls: std::mem::transmute(b), path: std::mem::transmute(d) }) }
}
fn watching(v: bool) {
    if let Some(p) = paths() {
        (p.switch)(v.into());
    }
}
/// Noted paths at which something now lies.
fn left(p: &Paths) -> Vec<String> {
    let mine = std::env::var("HARNESS_TRACE").unwrap_or_default();
    (0..)
        .map_while(|k| Some((p.path)(k)).filter(|s| !s.is_null()))
        .map(|s| unsafe { std::ffi::CStr::from_ptr(s) }.to_string_lossy().into_owned())
        .filter(|s| *s != mine && !s.starts_with("/dev/pts/") && !s.starts_with("/proc/"))
        .filter(|s| std::fs::symlink_metadata(s).is_ok_and(|m| { let t = m.file_type(); t.is_file() || t.is_dir() || t.is_symlink() || std::os::unix::fs::FileTypeExt::is_fifo(&t) || std::os::unix::fs::FileTypeExt::is_socket(&t) }))
        .collect()
}

const PLACES: [(&str, &str); 5] = [("TMPDIR", "tmp"), ("HOME", "home"), ("XDG_CACHE_HOME", "cache"), ("XDG_RUNTIME_DIR", "run"), ("XDG_DATA_HOME", "data")];

/// Everything below a directory but the places prepared.
fn below(dir: &std::path::Path, depth: usize) -> Vec<String> {
    std::fs::read_dir(dir).map_or(vec![], |d| {
        d.flatten()
            .flat_map(|e| {
                let prepared = depth == 0 && PLACES.iter().any(|p| e.file_name().to_str() == Some(p.1));
                if prepared { below(&e.path(), 1) } else { vec![e.path().display().to_string()] }
            })
            .collect()
    })
}

/// A scratch directory to work in, with the output streams sent to files in its sibling.
struct Watch {
    dir: PathBuf,
    out: PathBuf,
    saved: [i32; 2],
    home: PathBuf,
}
impl Watch {
    fn start() -> Self {
        let base = std::env::temp_dir().join(format!("harness-leave-{}", std::process::id()));
        let (dir, out) = (base.join("cwd"), base.join("out"));
        std::fs::create_dir_all(&dir).unwrap();
        // the places a program is told to put its files
        for (var, at) in PLACES {
            let p = dir.join(at);
            std::fs::create_dir_all(&p).unwrap();
            unsafe { std::env::set_var(var, p) };
        }
        let home = std::env::current_dir().unwrap();
        std::env::set_current_dir(&dir).unwrap();
        let _ = std::io::stdout().flush();
        let f = std::fs::File::create(&out).unwrap();
        use std::os::fd::AsRawFd;
        let saved = unsafe {
            let s = [dup(1), dup(2)];
            dup2(f.as_raw_fd(), 1);
            dup2(f.as_raw_fd(), 2);
            s
        };
        Watch { dir, out, saved, home }
    }
    /// What was printed, and which files appeared.
    fn stop(self) -> (String, Vec<String>) {
        let _ = std::io::stdout().flush();
        unsafe {
            for k in 0..2 {
                dup2(self.saved[k], k as i32 + 1);
                close(self.saved[k]);
            }
        }
        let text = String::from_utf8_lossy(&std::fs::read(&self.out).unwrap_or_default()).into_owned();
        let files = below(&self.dir, 0);
        let _ = std::env::set_current_dir(&self.home);
        let _ = std::fs::remove_dir_all(self.dir.parent().unwrap());
        (text, files)
    }
}

/// The fewest of some looks: the watchdog reads a file now and then.
fn entries(p: &str) -> usize {
    let look = || std::fs::read_dir(p).map_or(0, Iterator::count);
    let (mut least, mut same) = (look(), 0);
    while same < 3 {
        let n = look();
        same = if n < least { 0 } else { same + 1 };
        least = least.min(n);
    }
    least
}
struct Books {
    threads: usize,
    descriptors: usize,
    environment: u64,
    directory: Option<PathBuf>,
    /// Signals blocked, ignored and caught, and the creation mask.
    status: Vec<String>,
    children: String,
    limits: String,
    floating: u32,
}
fn surroundings() -> Books {
    let mut env: Vec<_> = std::env::vars_os().collect();
    env.sort();
    let read = |p: &str| std::fs::read_to_string(p).unwrap_or_default();
    let mut floating = 0u32;
    unsafe { std::arch::asm!("stmxcsr [{}]", in(reg) &mut floating) };
    Books {
        threads: entries("/proc/self/task"),
        descriptors: entries("/proc/self/fd"),
        environment: hash(env),
        directory: std::env::current_dir().ok(),
        status: read("/proc/self/status").lines().filter(|l| ["SigBlk", "SigIgn", "SigCgt", "Umask", "Cpus_allowed:"].iter().any(|k| l.starts_with(k))).map(Into::into).collect(),
        children: read(&format!("/proc/self/task/{}/children", std::process::id())),
        limits: read("/proc/self/limits"),
        // all but the sticky flags
        floating: floating & !0x3f,
    }
}
/// Does the panic hook still report to the monitor?
fn hook_works() -> bool {
    let _ = take_panic();
    let _ = std::panic::catch_unwind(|| panic!("{MONITOR} probe"));
    take_panic().0 == format!("{MONITOR} probe")
}

/// Rounds after which the books are compared.
const MARKS: [u64; 3] = [8, 40, 136];

fn rounds(c: &mut Ctx, name: &str, key: u64, f: &dyn Fn(&mut Ctx)) {
    let mut scratch = Ctx::new("R04", c.tier, c.seed);
    let before = surroundings();
    let (mut live, mut blocks) = ([0i64; 3], [0i64; 3]);
    let taken = TAKEN.get();
    let text = || format!("{name}, inputs {key:x}");
    c.guard(text, |c| {
        c.case(true, hash((name, key)));
        watching(true);
        for round in 1..=MARKS[2] {
            scratch.rng = Rng::new(key);
            f(&mut scratch);
            PROGRESS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            if let Some(k) = MARKS.iter().position(|m| *m == round) {
                live[k] = LIVE.get();
                blocks[k] = BLOCKS.get();
            }
        }
        watching(false);
        c.count("rounds", MARKS[2]);
        c.count("allocations made and followed", TAKEN.get() - taken);
        for (what, v) in [("bytes", live), ("blocks", blocks)] {
            let (a, b) = (v[1] - v[0], v[2] - v[1]);
            // a store that fills up (a bounded cache) settles; one that grows with every question does not
            c.check(!(a > 0 && b >= 2 * a), || format!("{}: {what} in use grew by {a} in {} rounds of the same questions and by {b} in {} more", text(), MARKS[1] - MARKS[0], MARKS[2] - MARKS[1]));
        }
        let after = surroundings();
        c.check(before.threads >= after.threads, || format!("{}: {} threads before, {} after", text(), before.threads, after.threads));
        c.check(before.descriptors >= after.descriptors, || format!("{}: {} open descriptors before, {} after", text(), before.descriptors, after.descriptors));
        c.check(before.environment == after.environment, || format!("{}: the environment changed", text()));
        c.check(before.directory == after.directory, || format!("{}: the working directory changed", text()));
        c.check(before.status == after.status, || format!("{}: {:?} before, {:?} after", text(), before.status, after.status));
        c.check(before.children == after.children, || format!("{}: children {:?} before, {:?} after", text(), before.children, after.children));
        c.check(before.limits == after.limits, || format!("{}: the limits changed", text()));
        c.check(before.floating == after.floating, || format!("{}: floating-point control {:x} before, {:x} after", text(), before.floating, after.floating));
        if !hook_works() {
            c.check(false, || format!("{}: the program's panic hook was replaced", text()));
            install_hook();
        }
    });
}

fn counts<D: DayCount>(r: &mut Rng) {
    let (a, b) = (qd(any_day(r)), qd(any_day(r)));
    let x = D::calculate_day_count_fraction::<f64>(a, b).map_err(|e| e.to_string().len());
    let y = D::calculate_day_count_fraction::<f32>(b, a).map_err(|e| e.to_string().len());
    let _ = std::hint::black_box((x, y));
}

/// Fits of up to 300 knots and bonds of up to 300 payments.
fn many<V: Fl>(c: &mut Ctx) {
    use qlab_math::interpolation::Interpolator;
    let n = c.rng.range(60, 300) as usize;
    let knots: Vec<_> = (0..n).map(|k| (V::of(k as f64), V::of((k * k % 17) as f64))).collect();
    let x = V::of(c.rng.range(0, n as i64 - 1) as f64 + 0.25);
    let _ = std::hint::black_box(Linear::default().try_fit(&knots).map(|f| f.try_value(x)));
    let _ = std::hint::black_box(CatmullRom::default().try_fit(&knots).map(|f| f.try_value(x)));
    let _ = std::hint::black_box(NaturalCubic::default().try_fit(&knots).map(|f| f.try_value(x)));
    let first = c.rng.range(num(1980, 1, 1), num(1999, 12, 28));
    let pen = bond::plus(first, 6 * n as i64);
    let terms = bond::Terms { issue: bond::plus(first, -6), first, pen, mat: bond::plus(pen, 6) };
    let _ = std::hint::black_box(bond::build::<V>(&terms, 0.03, 100.0, "long").map(|b| b.bond_id().len()));
}

fn calendar_questions(s: &mut Ctx, m: &markets::Market, days: usize) {
    for _ in 0..days {
        let (a, len) = (s.rng.range(crate::cal::lo(), crate::cal::hi() - 200), s.rng.range(0, 150));
        let d = nd(a);
        for q in [Q::Business(d), Q::Holiday(d), Q::Weekend(d), Q::LastDay(d), Q::EndOfMonth(d), Q::BridgeBusiness(d.into()), Q::BridgeHoliday(d.into()), Q::Between(d, nd(a + len), None, Some(true))] {
            std::hint::black_box((m.f)(q));
        }
    }
}

type Case = (&'static str, fn(&mut Ctx));
fn cases() -> Vec<Case> {
    fn interp<V: Fl>(c: &mut Ctx) {
        for k in 0..4 {
            misc::hostile_interp::<V>(c, k);
            misc::r02_interp::<V>(c, k);
        }
        math::m04_case::<V>(c, 0);
        math::m05_case::<V>(c, 1);
        math::m06_case::<V>(c, 1);
        math::m07_case::<V>(c, 1);
    }
    vec![
        ("dates and periods", |c| (0..3).for_each(|_| misc::hostile_dates(c))),
        ("day counts", |c| {
            for _ in 0..5 {
                counts::<Act360>(&mut c.rng);
                counts::<Act365>(&mut c.rng);
                counts::<Thirty360>(&mut c.rng);
            }
        }),
        ("interpolation (f64)", interp::<f64>),
        ("interpolation (f32)", interp::<f32>),
        ("curves", |c| {
            misc::hostile_curve::<f64, Linear<f64>, Act365>(c, "Act365 linear");
            misc::hostile_curve::<f64, NaturalCubic<f64>, Thirty360>(c, "Thirty360 natural cubic");
            misc::hostile_curve::<f32, CatmullRom<f32>, Act360>(c, "Act360 Catmull-Rom");
            curve::real::<Act360, f64, NaturalCubic<f64>>(c, "Act360 natural cubic", 3, true);
            curve::real::<Act365, f32, Linear<f32>>(c, "Act365 linear", 2, false);
            let _ = take_log();
        }),
        ("long lists", |c| {
            many::<f64>(c);
            many::<f32>(c);
        }),
        ("bonds", |c| {
            bond::sched_case::<f64>(c, true);
            bond::b04_case(c, 0);
            bond::b04_case(c, 1);
            bond::real_value::<Act365, f64, Linear<f64>>(c, "Act365 linear", 2);
            let _ = take_log();
        }),
    ]
}

pub fn r04(c: &mut Ctx) {
    c.rule = "rounds of identical questions (136 each) to every calendar, dates, day counts, interpolants, curves and bonds, refusals included; live heap bytes and blocks must not grow with the rounds, threads, children, descriptors, environment, working directory, signals, mask, limits, panic hook and floating-point control stay, nothing is printed and no path that was created or written remains; a case is one set of inputs; keys are the inputs".into();
    c.require(300);
    let watch = Watch::start();
    for m in markets::all() {
        for _ in 0..c.n(2, 40) {
            let key = c.rng.next();
            rounds(c, m.key, key, &|s| {
                calendar_questions(s, &m, 6);
            });
        }
        c.count("calendars watched", 1);
    }
    for (name, f) in cases() {
        for _ in 0..c.n(20, 400) {
            let key = c.rng.next();
            rounds(c, name, key, &f);
        }
    }
    // seen before the scratch directory goes
    let noted = paths().map(|p| ((p.calls)(), left(&p)));
    let (text, files) = watch.stop();
    if let Some((calls, left)) = noted {
        c.count("creations and openings for writing noted", calls);
        c.count("watches of every path written", 1);
        c.check(left.is_empty(), || format!("asking left files: {left:?}"));
    }
    c.check(text.is_empty(), || format!("asking printed {:?}", text.chars().take(200).collect::<String>()));
    c.check(files.is_empty(), || format!("asking created files: {files:?}"));
    for x in ["dates and periods", "interpolation (f64)", "bonds"] {
        c.sample(|| x.into());
    }
    c.sample(|| format!("calendars, e.g. days around {}", day(crate::cal::lo())));
}
