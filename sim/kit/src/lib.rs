//! Seeded simulation kit: decision tape, run driver, minimiser, replay files and evidence.
//!
//! Every choice a simulated run makes (workload, schedule, fault) is a draw from a [`Tape`].
//! A tape is generated from one seed; the values drawn are recorded, so a run is repeated exactly
//! either from its seed or from the recorded values, and a failing run is minimised by shortening
//! and zeroing the recorded values (0 is always the "nothing special / no fault" choice).

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::panic::{self, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub mod rng;
pub use rng::Rng;
mod guard;

/// The recorded sequence of decisions of one run.
pub struct Tape {
    rng: Rng,
    replay: Option<Vec<u64>>,
    pos: usize,
    pub rec: Vec<u64>,
}

impl Tape {
    pub fn from_seed(seed: u64) -> Self {
        Tape { rng: Rng::new(seed), replay: None, pos: 0, rec: Vec::new() }
    }
    pub fn from_values(v: Vec<u64>) -> Self {
        Tape { rng: Rng::new(0), replay: Some(v), pos: 0, rec: Vec::new() }
    }
    fn draw(&mut self, n: u64, fresh: impl FnOnce(&mut Rng) -> u64) -> u64 {
        let v = match &self.replay {
            Some(r) => {
                let v = r.get(self.pos).copied().unwrap_or(0);
                if n == 0 { v } else { v % n }
            }
            None => fresh(&mut self.rng),
        };
        self.pos += 1;
        self.rec.push(v);
        v
    }
    /// Any u64.
    pub fn raw(&mut self) -> u64 {
        self.draw(0, |r| r.next())
    }
    /// Uniform in `0..n` (0 if n <= 1, without consuming a decision).
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        self.draw(n, |r| r.below(n))
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// Uniform in `lo..=hi`; `lo` is the simplest choice.
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    /// True with probability `num/den`.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(2, |r| (r.below(den) < num) as u64) == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.idx(xs.len())]
    }
    /// One recorded seed for bulk data that need not be minimised value by value.
    pub fn fork(&mut self) -> Rng {
        let s = self.raw();
        Rng::new(s)
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            // 0 keeps the element in place
            let j = i - self.idx(i + 1);
            xs.swap(i, j);
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Violation {
    /// Short stable class of the violation.
    pub key: String,
    pub msg: String,
}

impl Violation {
    pub fn new(key: impl Into<String>, msg: impl Into<String>) -> Self {
        Violation { key: key.into(), msg: msg.into() }
    }
}

pub type RunResult = Result<(), Violation>;

#[macro_export]
macro_rules! violate {
    ($key:expr, $($arg:tt)*) => { return Err($crate::Violation::new($key, format!($($arg)*))) };
}
#[macro_export]
macro_rules! must {
    ($cond:expr, $key:expr, $($arg:tt)*) => { if !($cond) { return Err($crate::Violation::new($key, format!($($arg)*))) } };
}

/// State of one simulated run.
pub struct Ctx {
    pub t: Tape,
    pub seed: u64,
    pub counters: BTreeMap<String, u64>,
    pub faults: BTreeMap<String, u64>,
    pub cover: HashSet<u64>,
    pub trace: Vec<String>,
    pub sample: Option<String>,
    pub sim_ms: u64,
    pub steps: u64,
    pub thorough: bool,
}

impl Ctx {
    pub fn new(t: Tape, seed: u64, thorough: bool) -> Self {
        Ctx {
            t,
            seed,
            counters: BTreeMap::new(),
            faults: BTreeMap::new(),
            cover: HashSet::new(),
            trace: Vec::new(),
            sample: None,
            sim_ms: 0,
            steps: 0,
            thorough,
        }
    }
    pub fn count(&mut self, k: &str) {
        self.count_n(k, 1)
    }
    pub fn count_n(&mut self, k: &str, n: u64) {
        match self.counters.get_mut(k) {
            Some(c) => *c += n,
            None => {
                self.counters.insert(k.to_string(), n);
            }
        }
    }
    /// Records that a fault of this kind really fired.
    pub fn fault(&mut self, k: &str) {
        match self.faults.get_mut(k) {
            Some(c) => *c += 1,
            None => {
                self.faults.insert(k.to_string(), 1);
            }
        }
    }
    /// Records a reached state, identified by a stable hash of its description.
    pub fn cover(&mut self, h: u64) {
        self.cover.insert(h);
    }
    pub fn cover_of<T: std::hash::Hash>(&mut self, v: &T) {
        self.cover.insert(stable_hash(v));
    }
    pub fn log(&mut self, s: impl Into<String>) {
        if self.trace.len() < 4000 {
            self.trace.push(s.into());
        }
    }
}

pub fn stable_hash<T: std::hash::Hash>(v: &T) -> u64 {
    use std::hash::Hasher;
    struct Fnv(u64);
    impl Hasher for Fnv {
        fn finish(&self) -> u64 {
            let mut z = self.0;
            z ^= z >> 32;
            z = z.wrapping_mul(0x9E3779B97F4A7C15);
            z ^ (z >> 29)
        }
        fn write(&mut self, b: &[u8]) {
            for x in b {
                self.0 ^= *x as u64;
                self.0 = self.0.wrapping_mul(0x100000001b3);
            }
        }
    }
    let mut h = Fnv(0xcbf29ce484222325);
    v.hash(&mut h);
    h.finish()
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static CATCHING: Cell<u32> = const { Cell::new(0) };
}

fn install_hook() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        let old = panic::take_hook();
        panic::set_hook(Box::new(move |info| {
            let quiet = CATCHING.with(|c| c.get() > 0);
            if quiet {
                let msg = info
                    .payload()
                    .downcast_ref::<&str>()
                    .map(|s| s.to_string())
                    .or_else(|| info.payload().downcast_ref::<String>().cloned())
                    .unwrap_or_else(|| "panic".into());
                let loc = info
                    .location()
                    .map(|l| {
                        let f = l.file();
                        let f = f.rsplit('/').take(3).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join("/");
                        format!("{}:{}", f, l.line())
                    })
                    .unwrap_or_default();
                let mut m = msg;
                if m.len() > 300 {
                    let mut cut = 300;
                    while !m.is_char_boundary(cut) {
                        cut -= 1;
                    }
                    m.truncate(cut);
                }
                PANIC.with(|p| *p.borrow_mut() = Some(format!("{m} at {loc}")));
            } else {
                old(info)
            }
        }));
    });
}

/// Runs code under test; a panic is returned as its message.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    install_hook();
    CATCHING.with(|c| c.set(c.get() + 1));
    let r = panic::catch_unwind(AssertUnwindSafe(f));
    CATCHING.with(|c| c.set(c.get() - 1));
    r.map_err(|_| PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into()))
}

/// What a check is and how it runs one simulated execution.
pub struct Check {
    pub id: &'static str,
    /// Text for the evidence: what counts as a distinct non-trivial case.
    pub rule: &'static str,
    pub technique: &'static str,
    pub level: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
    pub quick_runs: u64,
    pub thorough_runs: u64,
    /// Wall-clock caps in seconds for the search itself.
    pub quick_cap: u64,
    pub thorough_cap: u64,
    pub run: fn(&mut Ctx) -> RunResult,
    /// Fault kinds that must have fired at least once over a full quick run (self-check).
    pub expect_faults: &'static [&'static str],
    pub threads: usize,
    /// A run that takes longer than this many seconds is reported as a hang.
    pub hang_secs: u64,
}

pub const DEFAULT_CHECK: Check = Check {
    id: "",
    rule: "",
    technique: "deterministic simulation with fault injection: seeded search over schedules and fault sequences",
    level: "exploration",
    real: &[],
    stub: &[],
    assumptions: &[],
    quick_runs: 1000,
    thorough_runs: 100000,
    quick_cap: 60,
    thorough_cap: 1200,
    run: |_| Ok(()),
    expect_faults: &[],
    threads: 8,
    hang_secs: 120,
};

fn run_once(c: &Check, tape: Tape, seed: u64, thorough: bool) -> (Ctx, RunResult) {
    let mut ctx = Ctx::new(tape, seed, thorough);
    let r = catch(|| (c.run)(&mut ctx));
    let r = match r {
        Ok(r) => r,
        // A panic that the check did not expect: a defect of the harness or of the code under test
        // outside the guarded calls. Reported, never swallowed.
        Err(p) => Err(Violation::new("unexpected-panic", format!("unexpected panic: {p}"))),
    };
    (ctx, r)
}

fn run_seed(base: u64, id: &str, i: u64) -> u64 {
    let mut r = Rng::new(base ^ stable_hash(&id));
    let k = r.next();
    Rng::new(k ^ i.wrapping_mul(0x9E3779B97F4A7C15)).next()
}

fn minimise(c: &Check, seed: u64, mut tape: Vec<u64>, v: &Violation, thorough: bool, cap: Duration) -> Vec<u64> {
    let start = Instant::now();
    let mut tries = 0u64;
    let mut ok = |cand: &Vec<u64>| -> Option<Vec<u64>> {
        tries += 1;
        let (ctx, r) = run_once(c, Tape::from_values(cand.clone()), seed, thorough);
        match r {
            Err(w) if w.key == v.key => {
                // what was really consumed
                let mut rec = ctx.t.rec;
                while rec.last() == Some(&0) {
                    rec.pop();
                }
                Some(rec)
            }
            _ => None,
        }
    };
    match ok(&tape) {
        Some(t) => tape = t,
        None => return tape,
    }
    let mut progress = true;
    while progress && start.elapsed() < cap {
        progress = false;
        // delete chunks
        let mut size = (tape.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < tape.len() && start.elapsed() < cap {
                let mut cand = tape.clone();
                let end = (i + size).min(cand.len());
                cand.drain(i..end);
                match ok(&cand) {
                    Some(t) if t.len() < tape.len() => {
                        tape = t;
                        progress = true;
                    }
                    _ => i += size,
                }
            }
            if size == 1 || start.elapsed() >= cap {
                break;
            }
            size /= 2;
        }
        // zero chunks, then shrink values
        let mut size = (tape.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < tape.len() && start.elapsed() < cap {
                let end = (i + size).min(tape.len());
                if tape[i..end].iter().any(|x| *x != 0) {
                    let mut cand = tape.clone();
                    cand[i..end].iter_mut().for_each(|x| *x = 0);
                    if let Some(t) = ok(&cand) {
                        if t.len() <= tape.len() && t != tape {
                            tape = t;
                            progress = true;
                        }
                    }
                }
                i += size;
            }
            if size == 1 || start.elapsed() >= cap {
                break;
            }
            size /= 2;
        }
        let mut i = 0;
        while i < tape.len() && start.elapsed() < cap {
            if tape[i] > 1 {
                for v2 in [1, tape[i] / 2, tape[i] - 1] {
                    if v2 >= tape[i] {
                        continue;
                    }
                    let mut cand = tape.clone();
                    cand[i] = v2;
                    if let Some(t) = ok(&cand) {
                        if t.len() <= tape.len() && t != tape {
                            tape = t;
                            progress = true;
                            break;
                        }
                    }
                }
            }
            i += 1;
        }
    }
    tape
}

fn verif_root() -> std::path::PathBuf {
    std::env::var_os("VERIF_ROOT").map(Into::into).unwrap_or_else(|| "/verif".into())
}

fn known_findings(id: &str) -> Vec<(String, String)> {
    // lines: "finding: property=<id> key=<key> <text>"
    let mut out = vec![];
    if let Ok(s) = std::fs::read_to_string(verif_root().join("known-findings.txt")) {
        for l in s.lines() {
            if let Some(rest) = l.strip_prefix("finding: ") {
                let mut p = None;
                let mut k = None;
                for w in rest.split_whitespace() {
                    if let Some(x) = w.strip_prefix("property=") {
                        p = Some(x.to_string());
                    }
                    if let Some(x) = w.strip_prefix("key=") {
                        k = Some(x.to_string());
                    }
                }
                if p.as_deref() == Some(id) {
                    if let Some(k) = k {
                        out.push((k.clone(), rest.split_once(&format!("key={k} ")).map_or(rest, |x| x.1).to_string()));
                    }
                }
            }
        }
    }
    out
}

struct Agg {
    runs: u64,
    counters: BTreeMap<String, u64>,
    faults: BTreeMap<String, u64>,
    cover: HashSet<u64>,
    cover_trivial_runs: u64,
    sim_ms: u64,
    steps: u64,
    samples: Vec<String>,
    found: Vec<(u64, u64, Violation, Vec<u64>)>,
    known_hits: BTreeMap<String, u64>,
}

/// Command line entry shared by the simulation binaries.
pub fn main(checks: &[Check]) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let usage = || -> ! {
        eprintln!("usage: {} <property> quick|thorough | replay <file> | digest <property> <n>", args[0]);
        std::process::exit(2)
    };
    if args.len() < 3 {
        usage();
    }
    // scratch file-system and other process-wide seams read this
    install_hook();
    match args[1].as_str() {
        "replay" => replay(checks, &args[2]),
        "digest" => digest(checks, &args[2], args.get(3).and_then(|s| s.parse().ok()).unwrap_or(20)),
        id => {
            let c = checks.iter().find(|c| c.id == id).unwrap_or_else(|| usage());
            let thorough = args[2] == "thorough";
            guard::supervise(c, thorough)
        }
    }
}

/// Prints a hash of every decision and trace line of the first n runs (determinism self-check).
fn digest(checks: &[Check], id: &str, n: u64) -> ! {
    let c = checks.iter().find(|c| c.id == id).expect("unknown property");
    let base: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    for i in 0..n {
        let seed = run_seed(base, c.id, i);
        let (ctx, r) = run_once(c, Tape::from_seed(seed), seed, false);
        println!(
            "{i} {seed:016x} tape={:016x} trace={:016x} steps={} {:?}",
            stable_hash(&ctx.t.rec),
            stable_hash(&ctx.trace),
            ctx.steps,
            r.err().map(|v| v.key)
        );
        if std::env::var_os("SIM_TRACE").is_some() {
            ctx.trace.iter().for_each(|l| println!("  {l}"));
        }
    }
    std::process::exit(0)
}

fn replay(checks: &[Check], path: &str) -> ! {
    let s = std::fs::read_to_string(path).expect("replay file");
    let v: serde_json::Value = serde_json::from_str(&s).expect("replay json");
    let id = v["property"].as_str().unwrap();
    let Some(c) = checks.iter().find(|c| c.id == id) else {
        eprintln!("property {id} is not in this binary");
        std::process::exit(2)
    };
    let tape: Vec<u64> = v["tape"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
    let seed = v["seed"].as_u64().unwrap();
    let thorough = v["tier"] == "thorough";
    let make = || if v["from_seed"] == true { Tape::from_seed(seed) } else { Tape::from_values(tape.clone()) };
    if v["key"] == "died" || v["key"] == "hang" {
        match guard::alone(c, make(), seed, thorough) {
            Some(why) => {
                println!("reproduced: died | {why}");
                println!("VIOLATION property={id} replay={path}");
                std::process::exit(1)
            }
            None => {
                println!("not reproduced: the run came to an end on this replay");
                std::process::exit(0)
            }
        }
    }
    let (ctx, r) = run_once(c, make(), seed, thorough);
    for l in &ctx.trace {
        println!("  {l}");
    }
    match r {
        Err(w) => {
            println!("reproduced: {} | {}", w.key, w.msg);
            println!("VIOLATION property={id} replay={path}");
            if v["message"].as_str() != Some(&w.msg) {
                println!("note: message differs from the recorded one: {}", v["message"]);
            }
            std::process::exit(1)
        }
        Ok(()) => {
            println!("not reproduced: the property held on this replay");
            std::process::exit(0)
        }
    }
}

fn explore(c: &Check, thorough: bool) -> i32 {
    let t0 = Instant::now();
    let base: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let (mut runs, mut cap) = if thorough { (c.thorough_runs, c.thorough_cap) } else { (c.quick_runs, c.quick_cap) };
    if let Some(n) = std::env::var("SIM_RUNS").ok().and_then(|s| s.parse().ok()) {
        runs = n;
    }
    if let Some(n) = std::env::var("SIM_CAP").ok().and_then(|s| s.parse().ok()) {
        cap = n;
    }
    let known = known_findings(c.id);
    let deadline = t0 + Duration::from_secs(cap);
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let agg = Mutex::new(Agg {
        runs: 0,
        counters: BTreeMap::new(),
        faults: BTreeMap::new(),
        cover: HashSet::new(),
        cover_trivial_runs: 0,
        sim_ms: 0,
        steps: 0,
        samples: vec![],
        found: vec![],
        known_hits: BTreeMap::new(),
    });
    let threads = std::env::var("SIM_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(c.threads).max(1);
    std::thread::scope(|s| {
        for k in 0..threads {
            let (next, stop, agg, known) = (&next, &stop, &agg, &known);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || {
                loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= runs || stop.load(Ordering::SeqCst) || Instant::now() > deadline {
                        break;
                    }
                    let seed = run_seed(base, c.id, i);
                    guard::begin(k, i, seed);
                    let (mut ctx, r) = run_once(c, Tape::from_seed(seed), seed, thorough);
                    guard::end(k);
                    let mut a = agg.lock().unwrap();
                    a.runs += 1;
                    if ctx.cover.is_empty() {
                        a.cover_trivial_runs += 1;
                    }
                    for (k, n) in ctx.counters {
                        *a.counters.entry(k).or_default() += n;
                    }
                    for (k, n) in ctx.faults {
                        *a.faults.entry(k).or_default() += n;
                    }
                    a.sim_ms += ctx.sim_ms;
                    a.steps += ctx.steps;
                    a.cover.extend(ctx.cover);
                    if a.samples.len() < 6 {
                        let own = ctx.sample.take();
                        let s = own.or_else(|| (!ctx.trace.is_empty()).then(|| ctx.trace.join("; ").chars().take(600).collect()));
                        if let Some(s) = s {
                            a.samples.push(s);
                        }
                    }
                    if let Err(v) = r {
                        if known.iter().any(|(k, _)| *k == v.key) {
                            *a.known_hits.entry(v.key).or_default() += 1;
                        } else {
                            a.found.push((i, seed, v, ctx.t.rec));
                            stop.store(true, Ordering::SeqCst);
                        }
                    }
                }})
                .unwrap();
        }
    });
    let search = t0.elapsed();
    let mut a = agg.into_inner().unwrap();
    a.found.sort_by_key(|f| f.0);
    let mut code = 0;
    let mut problem = None;
    if let Some((i, seed, v, rec)) = a.found.first() {
        let cap = Duration::from_secs(if thorough { 60 } else { 25 });
        let n0 = rec.len();
        // in case the code under test kills or stops this process while the run is minimised
        guard::found(c, *i, *seed, base, thorough, v, rec);
        let min = minimise(c, *seed, rec.clone(), v, thorough, cap);
        let (ctx, r) = run_once(c, Tape::from_values(min.clone()), *seed, thorough);
        let (tape, ctx, v2) = match r {
            Err(w) if w.key == v.key => (min, ctx, w),
            _ => {
                // could not be minimised faithfully: keep the original tape
                let (ctx, r) = run_once(c, Tape::from_values(rec.clone()), *seed, thorough);
                (rec.clone(), ctx, r.err().unwrap_or(v.clone()))
            }
        };
        let dir = verif_root().join("evidence").join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{:016x}.json", c.id, seed));
        let j = serde_json::json!({
            "property": c.id, "seed": seed, "run_index": i, "base_seed": base,
            "tier": if thorough {"thorough"} else {"quick"},
            "key": v2.key, "message": v2.msg,
            "decisions_original": n0, "decisions_minimised": tape.len(),
            "tape": tape, "trace": ctx.trace, "faults": ctx.faults,
        });
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap());
        println!("violation: {} | {}", v2.key, v2.msg);
        println!("seed {seed} (run {i}), {n0} decisions minimised to {}", j["decisions_minimised"]);
        for l in ctx.trace.iter().rev().take(25).collect::<Vec<_>>().into_iter().rev() {
            println!("  {l}");
        }
        println!("VIOLATION property={} replay={}", c.id, path.display());
        code = 1;
    } else {
        for (k, txt) in &known {
            if let Some(n) = a.known_hits.get(k) {
                println!("KNOWN-FINDING: property={} {} (met {n} times)", c.id, txt);
            } else {
                println!("KNOWN-FINDING: property={} {} (not met in this run)", c.id, txt);
            }
        }
        if !thorough && a.runs >= runs {
            for f in c.expect_faults {
                if !a.faults.contains_key(*f) {
                    problem = Some(format!("self-check: fault kind '{f}' never fired"));
                }
            }
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let per_hour = |x: f64| (x / search.as_secs_f64().max(1e-9) * 3600.0).round();
    let ev = serde_json::json!({
        "property": c.id,
        "tier": if thorough {"thorough"} else {"quick"},
        "seed": base,
        "level": c.level,
        "coverage": {
            "evaluations": a.runs,
            "distinct_nontrivial": a.cover.len(),
            "rule": c.rule,
            "samples": a.samples,
            "simulated_runs": a.runs,
            "runs_reaching_no_covered_state": a.cover_trivial_runs,
            "runs_planned": runs,
            "seeds_per_hour": per_hour(a.runs as f64),
            "simulated_steps": a.steps,
            "simulated_time_s": a.sim_ms as f64 / 1000.0,
            "faults_injected": a.faults,
            "counters": a.counters,
            "components_real": c.real,
            "components_stub": c.stub,
            "self_check_problem": problem,
        },
        "assumptions": c.assumptions,
        "wall_s": (wall * 100.0).round() / 100.0,
        "violations": if code == 1 { 1 } else { 0 },
    });
    let dir = verif_root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{}.json", c.id)), serde_json::to_string_pretty(&ev).unwrap() + "\n").expect("evidence");
    if code == 0 {
        println!(
            "{}: property held on {} simulated runs ({} distinct states, {} fault injections) in {:.1}s",
            c.id,
            a.runs,
            a.cover.len(),
            a.faults.values().sum::<u64>(),
            wall
        );
        if let Some(p) = &problem {
            println!("{p}");
        }
    }
    code
}
