//! Parent and worker: a worker process runs the real code under the monitor,
//! the parent turns crashes and hangs of that process into verdicts.
use crate::rt::*;
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, Ordering};
use std::time::{Duration, Instant};

pub type Prop = (&'static str, fn(&mut Ctx));

fn tier() -> Tier {
    if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { Tier::Thorough } else { Tier::Quick }
}
fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
}

/// CPU ticks (user) of the worker's main thread, 100 per second; does it sleep?
/// The file stays open: R04 counts descriptors.
fn main_thread(stat: Option<&std::fs::File>) -> (u64, bool) {
    let mut text = [0u8; 1024];
    let n = stat.and_then(|f| std::os::unix::fs::FileExt::read_at(f, &mut text, 0).ok()).unwrap_or(0);
    let s = String::from_utf8_lossy(&text[..n]);
    let rest = s.rsplit_once(')').map_or("", |x| x.1);
    let mut words = rest.split_whitespace();
    let asleep = words.next() == Some("S");
    (words.nth(10).and_then(|x| x.parse().ok()).unwrap_or(0), asleep)
}

const STUCK_EXIT: i32 = 77;
const HARNESS_EXIT: i32 = 78;
const BLOCKED_EXIT: i32 = 76;
/// Half-second looks in a row at a thread asleep inside the library.
const BLOCKED: u32 = 120;

fn worker(props: &[Prop], id: &str) -> i32 {
    let Some((_, f)) = props.iter().find(|p| p.0 == id) else {
        eprintln!("unknown property {id}");
        return HARNESS_EXIT;
    };
    install_hook();
    static DONE: AtomicBool = AtomicBool::new(false);
    let limit: u64 = std::env::var("HARNESS_CASE_CPU").ok().and_then(|s| s.parse().ok()).unwrap_or(60);
    let stat = std::fs::File::open(format!("/proc/self/task/{}/stat", std::process::id())).ok();
    let watchdog = move || {
        let main_thread = || main_thread(stat.as_ref());
        let (mut at, mut ticks, mut sleeps) = (PROGRESS.load(Ordering::Relaxed), main_thread().0, 0);
        loop {
            std::thread::sleep(Duration::from_millis(500));
            if DONE.load(Ordering::Relaxed) {
                return;
            }
            let (p, (t, asleep)) = (PROGRESS.load(Ordering::Relaxed), main_thread());
            let waits = asleep && p == at && IN_LIBRARY.load(Ordering::Relaxed);
            sleeps = if waits { sleeps + 1 } else { 0 };
            if sleeps > BLOCKED {
                // the monitors never wait for anything inside a case
                std::process::exit(BLOCKED_EXIT);
            }
            if p != at {
                (at, ticks) = (p, t);
            } else if IN_LIBRARY.load(Ordering::Relaxed) && t.saturating_sub(ticks) > limit * 100 {
                // one library call has burnt `limit` CPU seconds
                std::process::exit(STUCK_EXIT);
            }
        }
    };
    if !cfg!(miri) {
        std::thread::spawn(watchdog);
    }
    let mut ctx = Ctx::new(id, tier(), seed());
    // R04 has the output streams caught in a file while it runs
    ctx.early = id != "R04";
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut ctx)));
    DONE.store(true, Ordering::Relaxed);
    if r.is_err() {
        let (m, l) = take_panic();
        if !l.starts_with("src/") || m.starts_with(MONITOR) {
            // library panic outside a guarded case
            ctx.violate(format!("the library panicked at {l}: {m}"));
        } else {
            eprintln!("harness error at {l}: {m}");
            return HARNESS_EXIT;
        }
    }
    ctx.finish()
}

/// Runs the worker; Ok(exit code) or Err(how it died).
fn spawn(id: &str, trace: Option<&std::path::Path>, wall: Duration) -> Result<i32, String> {
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.args(["worker", id]).stdin(Stdio::null());
    if let Some(t) = trace {
        c.env("HARNESS_TRACE", t).stdout(Stdio::null());
    }
    let mut ch = c.spawn().map_err(|e| format!("cannot spawn: {e}"))?;
    let start = Instant::now();
    loop {
        if let Some(st) = ch.try_wait().unwrap() {
            return match st.code() {
                Some(BLOCKED_EXIT) => Err("never returned: one call waits for something that never comes".into()),
                Some(STUCK_EXIT) => Err("never returned: one call consumed all its CPU budget".into()),
                Some(c) => Ok(c),
                None => Err(format!("killed the process with signal {}", st.signal().unwrap_or(0))),
            };
        }
        if start.elapsed() > wall {
            let _ = ch.kill();
            let _ = ch.wait();
            return Ok(HARNESS_EXIT + 1);
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

fn run(id: &str) -> i32 {
    let wall = Duration::from_secs(if tier() == Tier::Thorough { 7200 } else { 600 });
    match spawn(id, None, wall) {
        Ok(c @ (0 | 1)) => c,
        Ok(2) => 2,
        Ok(c) => {
            println!("INCONCLUSIVE property={id}: worker exit {c} (harness error or wall-clock limit)");
            2
        }
        Err(how) => {
            // name the case in flight by running again with a trace of case labels
            let t = std::env::temp_dir().join(format!("harness-trace-{}", std::process::id()));
            let again = spawn(id, Some(&t), wall);
            let label = String::from_utf8_lossy(&std::fs::read(&t).unwrap_or_default()).trim_end().to_string();
            let _ = std::fs::remove_file(&t);
            if how.contains("signal 9") || how.contains("signal 15") {
                println!("INCONCLUSIVE property={id}: worker {how}");
                return 2;
            }
            if again.is_ok() {
                println!("INCONCLUSIVE property={id}: worker {how}, but not when run again");
                return 2;
            }
            let mut ctx = Ctx::new(id, tier(), seed());
            ctx.rule = "crash or hang of the process while running a case".into();
            ctx.case(true, 1);
            ctx.violate(format!("the library {how} while answering: {label}"));
            ctx.finish()
        }
    }
}

/// Dispatches `run ID` and `worker ID`; None for other arguments.
pub fn dispatch(props: &[Prop], a: &[String]) -> Option<i32> {
    let id = a.get(2).map_or("", String::as_str);
    match a.get(1).map(String::as_str) {
        Some("worker") => Some(worker(props, id)),
        Some("run") => Some(run(id)),
        _ => None,
    }
}
