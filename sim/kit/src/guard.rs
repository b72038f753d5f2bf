//! The search runs in a child process. If the code under test brings it down (abort, stack overflow, endless
//! loop, memory without bound), the run that did so is found by repeating the runs that were under way, each
//! in a process of its own.

use super::*;
use std::ptr;
use std::sync::atomic::AtomicPtr;

const MEMORY: i32 = 97;
const TIME: i32 = 98;
/// Resident memory of the whole search, and of one run alone, in bytes.
const LIMIT: u64 = 12 << 30;
const LIMIT_ALONE: u64 = 4 << 30;
const SLOTS: usize = 64;

struct Slot {
    /// 0: idle, otherwise milliseconds since the start of the search, plus one
    since: AtomicU64,
    i: AtomicU64,
    seed: AtomicU64,
}
struct Shared {
    slots: [Slot; SLOTS],
    /// 1: a violation has been written out and is being minimised
    found: AtomicU64,
    found_i: AtomicU64,
    found_seed: AtomicU64,
}
static SHARED: AtomicPtr<Shared> = AtomicPtr::new(ptr::null_mut());

fn shared() -> Option<&'static Shared> {
    unsafe { SHARED.load(Ordering::SeqCst).as_ref() }
}
fn clock() -> u64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_MONOTONIC, &mut t) };
    t.tv_sec as u64 * 1000 + t.tv_nsec as u64 / 1_000_000 + 1
}
pub fn begin(k: usize, i: u64, seed: u64) {
    if let Some(s) = shared().map(|s| &s.slots[k % SLOTS]) {
        s.i.store(i, Ordering::SeqCst);
        s.seed.store(seed, Ordering::SeqCst);
        s.since.store(clock(), Ordering::SeqCst);
    }
}
pub fn end(k: usize) {
    if let Some(s) = shared() {
        s.slots[k % SLOTS].since.store(0, Ordering::SeqCst);
    }
}

fn write_replay(c: &Check, i: u64, seed: u64, base: u64, thorough: bool, v: &Violation, tape: Option<&[u64]>) -> std::path::PathBuf {
    let dir = verif_root().join("evidence").join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = replay_path(c, seed);
    let j = serde_json::json!({"property": c.id, "seed": seed, "run_index": i, "base_seed": base,
        "tier": if thorough { "thorough" } else { "quick" }, "key": v.key, "message": v.msg,
        "from_seed": tape.is_none(), "tape": tape.unwrap_or(&[])});
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap());
    path
}
fn replay_path(c: &Check, seed: u64) -> std::path::PathBuf {
    verif_root().join("evidence").join("replays").join(format!("{}-{:016x}.json", c.id, seed))
}
fn write_evidence(c: &Check, runs: u64, base: u64, thorough: bool, t0: Instant, msg: &str) {
    let ev = serde_json::json!({"property": c.id, "tier": if thorough { "thorough" } else { "quick" }, "seed": base, "level": c.level,
        "coverage": {"evaluations": runs, "distinct_nontrivial": 0, "rule": format!("{} (the search was cut short by a run that ended its process; what it had counted is lost)", c.rule), "samples": [msg]},
        "assumptions": c.assumptions, "wall_s": t0.elapsed().as_secs_f64(), "violations": 1});
    let _ = std::fs::write(verif_root().join("evidence").join(format!("{}.json", c.id)), serde_json::to_string_pretty(&ev).unwrap());
}
pub fn found(c: &Check, i: u64, seed: u64, base: u64, thorough: bool, v: &Violation, tape: &[u64]) {
    write_replay(c, i, seed, base, thorough, v, Some(tape));
    if let Some(s) = shared() {
        s.found_i.store(i, Ordering::SeqCst);
        s.found_seed.store(seed, Ordering::SeqCst);
        s.found.store(clock(), Ordering::SeqCst);
    }
}

fn resident() -> u64 {
    let s = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
    s.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) * 4096
}
/// Ends the process when it uses too much memory or `late` says that it takes too long.
fn watch(limit: u64, late: impl Fn() -> bool + Send + 'static) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(20));
        if resident() > limit {
            unsafe { libc::_exit(MEMORY) }
        }
        if late() {
            unsafe { libc::_exit(TIME) }
        }
    });
}
/// Runs `f` in a child process; its exit code, or the signal that ended it as a negative number.
fn child(f: impl FnOnce() -> i32) -> i32 {
    use std::io::Write;
    let _ = std::io::stdout().flush();
    match unsafe { libc::fork() } {
        -1 => panic!("fork"),
        0 => {
            unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
            let code = f();
            let _ = std::io::stdout().flush();
            // no destructors: threads of the watch are still there
            unsafe { libc::_exit(code) }
        }
        pid => {
            let mut st = 0;
            while unsafe { libc::waitpid(pid, &mut st, 0) } != pid {}
            if libc::WIFSIGNALED(st) {
                -libc::WTERMSIG(st)
            } else {
                libc::WEXITSTATUS(st)
            }
        }
    }
}
fn reason(code: i32, c: &Check) -> Option<String> {
    match code {
        MEMORY => Some(format!("the run needs more than {} GiB of memory", LIMIT_ALONE >> 30)),
        TIME => Some(format!("the run did not finish within {} s", c.hang_secs)),
        c if c < 0 && c != -libc::SIGKILL && c != -libc::SIGTERM && c != -libc::SIGINT => Some(format!("the run ended its process with signal {}", -c)),
        _ => None,
    }
}
/// One run in a process of its own: how it failed to come to an end, if it did.
pub fn alone(c: &Check, tape: Tape, seed: u64, thorough: bool) -> Option<String> {
    let code = child(|| {
        let t0 = Instant::now();
        let limit = Duration::from_secs(c.hang_secs);
        watch(LIMIT_ALONE, move || t0.elapsed() > limit);
        let go = std::thread::Builder::new().stack_size(64 << 20).spawn({
            // the check is only read, and the process ends with this thread
            let c: &'static Check = unsafe { &*(c as *const Check) };
            move || {
                let _ = run_once(c, tape, seed, thorough);
            }
        });
        let _ = go.unwrap().join();
        0
    });
    reason(code, c)
}

pub fn supervise(c: &Check, thorough: bool) -> ! {
    let t0 = Instant::now();
    let base: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let p = unsafe {
        libc::mmap(ptr::null_mut(), std::mem::size_of::<Shared>(), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0)
    };
    assert!(p != libc::MAP_FAILED);
    SHARED.store(p.cast(), Ordering::SeqCst);
    let sh = shared().unwrap();
    let code = child(|| {
        let limit = c.hang_secs * 1000;
        let minimising = if thorough { 60_000 } else { 25_000 } + 30_000;
        watch(LIMIT, move || {
            let now = clock();
            let over = |since: u64, limit: u64| since > 0 && now.saturating_sub(since) > limit;
            over(sh.found.load(Ordering::SeqCst), minimising) || sh.slots.iter().any(|s| over(s.since.load(Ordering::SeqCst), limit))
        });
        explore(c, thorough)
    });
    if reason(code, c).is_none() && code >= 0 {
        std::process::exit(code)
    }
    let runs = sh.slots.iter().map(|s| s.i.load(Ordering::SeqCst)).max().unwrap_or(0) + 1;
    if sh.found.load(Ordering::SeqCst) > 0 {
        // the violation itself stands, only the minimised form could not be found
        let seed = sh.found_seed.load(Ordering::SeqCst);
        let path = replay_path(c, seed);
        let v: serde_json::Value = std::fs::read_to_string(&path).ok().and_then(|s| serde_json::from_str(&s).ok()).unwrap_or_default();
        let msg = format!("{} | {}", v["key"].as_str().unwrap_or("?"), v["message"].as_str().unwrap_or("?"));
        write_evidence(c, runs, base, thorough, t0, &msg);
        println!("violation: {msg}");
        println!("seed {seed} (run {}), not minimised: {:?}", sh.found_i.load(Ordering::SeqCst), reason(code, c));
        println!("VIOLATION property={} replay={}", c.id, path.display());
        std::process::exit(1)
    }
    let mut under_way: Vec<(u64, u64, u64)> = sh
        .slots
        .iter()
        .map(|s| (s.since.load(Ordering::SeqCst), s.i.load(Ordering::SeqCst), s.seed.load(Ordering::SeqCst)))
        .filter(|s| s.0 > 0)
        .collect();
    under_way.sort();
    for (_, i, seed) in under_way {
        if let Some(why) = alone(c, Tape::from_seed(seed), seed, thorough) {
            let v = Violation::new("died", why.clone());
            let path = write_replay(c, i, seed, base, thorough, &v, None);
            write_evidence(c, i + 1, base, thorough, t0, &why);
            println!("violation: died | {why} (seed {seed}, run {i})");
            println!("VIOLATION property={} replay={}", c.id, path.display());
            std::process::exit(1)
        }
    }
    println!("{}: the search ended with {code} ({:?}), which no single run repeats", c.id, reason(code, c));
    std::process::exit(3)
}
