//! The command line program end to end: simulated processes, started, killed and restarted over one
//! data directory, against a growing chain.
use crate::api::{Head, Log, NET_FAULTS, Node, Twist, Weather, connect};
use crate::build::*;
use crate::chain::{Chain, Cp, Profile, SPE};
use crate::follow::{Case, short};
use crate::lies::{self, LIES};
use crate::sys::{self, Bad, Faults, Relay, Scratch};
use simcore::nets::{JournalFields, Net, parse_journal};
use simcore::world::consensus_state;
use simkit::{Ctx, RunResult, must, violate};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::sync::Arc;
use std::sync::atomic::{AtomicU64, Ordering};
use z_core::{Checkpoint, Epoch};

#[allow(dead_code, unused_imports)]
mod program {
    include!("/repo/host/src/bin/zkasper_cli.rs");
    pub mod sim {
        pub fn main() -> anyhow::Result<()> {
            super::main()
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum How {
    Success,
    Error(String),
    Killed,
    Panic(String),
}
/// One process.
#[derive(Clone, Debug)]
pub struct Job {
    pub args: Vec<String>,
    pub head: Head,
    pub lag: u64,
    pub weather: Weather,
    pub disk: Faults,
    /// ends at this moment
    pub kill: u64,
    pub order: u64,
    pub hash_seed: u64,
    pub threads: usize,
    pub split: u64,
}
/// Events after which a process is ended.
const EVENTS: u64 = 200_000;
pub struct Ran {
    pub how: How,
    disk: sys::Disk,
    net: BTreeMap<&'static str, u64>,
    requests: u64,
    events: u64,
    sim_ms: u64,
    head: u64,
    /// shortest time between two successive polls, in milliseconds
    shortest: Option<u64>,
}
pub fn run(chain: &Arc<Chain>, root: &Path, job: &Job, twist: impl FnOnce() -> Option<Twist> + Send) -> Ran {
    run_on(chain, root, job, None, twist)
}
/// Two processes at the same time over one data directory, taking turns at every operation on the disk.
fn run_two(ctx: &mut Ctx, chain: &Arc<Chain>, root: &Path, a: &Job, b: &Job) -> (Ran, Ran) {
    let every = *ctx.t.pick(&[2u64, 1, 5, 20]);
    let rng = ctx.t.fork();
    sys::open_disk(root, a.disk.clone());
    let relay = Relay::new(2, every, rng);
    let (mut ra, rb) = std::thread::scope(|s| {
        let x = s.spawn(|| run_on(chain, root, a, Some((relay.clone(), 0)), || None));
        let y = s.spawn(|| run_on(chain, root, b, Some((relay.clone(), 1)), || None));
        let end = |h: std::thread::ScopedJoinHandle<'_, Ran>| h.join().unwrap_or_else(|p| std::panic::resume_unwind(p));
        (end(x), end(y))
    });
    let switches;
    (ra.disk, switches) = relay.finish();
    *ctx.faults.entry("process-switch".into()).or_default() += switches;
    ctx.count("concurrent-sessions");
    (ra, rb)
}
fn run_on(chain: &Arc<Chain>, root: &Path, job: &Job, relay: Option<(Arc<Relay>, usize)>, twist: impl FnOnce() -> Option<Twist> + Send) -> Ran {
    let mut env = Env::plain(0, root.to_path_buf());
    env.hash_seed = job.hash_seed;
    env.threads = job.threads;
    env.split = job.split;
    isolated(&env, || {
        simrt::enter(job.order, 0);
        let mk = || Node { chain: chain.clone(), head: job.head.clone(), lag: job.lag };
        let log: Log = connect(mk(), job.weather.clone(), twist());
        simrt::kill_at(Some(job.kill));
        // what goes round in circles need not do so for hours
        simrt::max_events(EVENTS);
        simrt::set_args(Some(job.args.clone()));
        let (r, crashed, disk) = match &relay {
            None => {
                sys::open_disk(root, job.disk.clone());
                let r = simrt::process(program::sim::main);
                (r, sys::crashed(), sys::close_disk())
            }
            Some((relay, me)) => {
                sys::set_pid(Some(7 + *me as i32));
                relay.run(*me, || (simrt::process(program::sim::main), sys::crashed(), sys::Disk::default()))
            }
        };
        simrt::set_args(None);
        let head = mk().head_slot();
        simrt::net::take_sent();
        let st = simrt::leave();
        let how = match r {
            _ if crashed => How::Killed,
            simrt::Ended::Returned(Ok(())) => How::Success,
            simrt::Ended::Returned(Err(e)) => How::Error(format!("{e:#}")),
            simrt::Ended::Killed(_) => How::Killed,
            simrt::Ended::Panicked(_) if st.events > EVENTS => How::Killed,
            simrt::Ended::Panicked(p) => How::Panic(panic_text(&*p)),
        };
        let mut seen = log.borrow_mut();
        Ran { how, disk, net: std::mem::take(&mut seen.faults), requests: seen.requests, events: st.events, sim_ms: st.sim_ms, head, shortest: seen.shortest }
    })
}

fn name(net: Net) -> &'static str {
    match net {
        Net::Mainnet => "mainnet",
        Net::Sepolia => "sepolia",
    }
}
fn draw_case(ctx: &mut Ctx) -> (Case, Net) {
    let net = *ctx.t.pick(&[Net::Sepolia, Net::Mainnet]);
    let forks = net.forks();
    let base = match ctx.t.below(4) {
        0 => forks[6].0 + 5 + ctx.t.below(2000),
        1 => forks[6].0 - 1 - ctx.t.below(8),
        2 => forks[5].0 + 1 + ctx.t.below(2000),
        _ => forks[6].0,
    };
    let profile = Profile::draw(ctx, base, true);
    let seed = ctx.t.raw();
    let chain = Chain::build(&net.spec(), &profile, seed);
    let head = chain.last();
    (Case { chain: Arc::new(chain), cfg: net.config(), head }, net)
}

/// What is recorded in a data directory.
#[derive(Clone, Debug, Default, PartialEq)]
struct Records {
    inputs: BTreeMap<u64, Vec<u8>>,
    journals: BTreeMap<u64, Vec<u8>>,
}
fn records(root: &Path, net: Net) -> Result<Records, simkit::Violation> {
    let mut out = Records::default();
    for (p, b) in sys::read_all(root).files {
        let file = p.file_name().unwrap().to_string_lossy().into_owned();
        let (kind, e) = match (file.strip_suffix("_stdin.bin"), file.strip_suffix("_journal.bin")) {
            (Some(e), _) => ("inputs", e),
            (_, Some(e)) => ("journals", e),
            _ => continue,
        };
        let dir = PathBuf::from("data").join(name(net)).join(kind);
        let epoch = e.parse::<u64>().ok().filter(|_| p.parent() == Some(&dir));
        let Some(epoch) = epoch else { violate!("odd-name", "a result is recorded as {}", p.display()) };
        if kind == "inputs" { out.inputs.insert(epoch, b) } else { out.journals.insert(epoch, b) };
    }
    Ok(out)
}
fn plain(c: Checkpoint) -> Cp {
    (c.epoch().as_u64(), c.root().0)
}

/// Judges recorded results.
struct Judge {
    net: Net,
    /// inputs already run, with what came out
    known: BTreeMap<[u8; 32], Result<Vec<u8>, String>>,
}
impl Judge {
    fn run(&mut self, stdin: &[u8]) -> Result<Vec<u8>, String> {
        let main = self.net.main();
        self.known.entry(simtree::sha(stdin)).or_insert_with(|| risc0_zkvm::sim_run(stdin, main).map_err(|(e, _)| e)).clone()
    }
    /// Every recorded result: complete, accepted by the network's guest, with the journal the guest
    /// commits, under the epoch it starts from.
    /// A journal completes a result, so its input is there already.
    fn results(&mut self, rec: &Records) -> Result<BTreeMap<u64, JournalFields>, simkit::Violation> {
        let mut out = BTreeMap::new();
        for (e, stdin) in &rec.inputs {
            let n = stdin.get(..4).map(|b| u32::from_le_bytes(b.try_into().unwrap()) as usize);
            must!(n == Some(stdin.len().saturating_sub(4)), "partial-input", "the input recorded for epoch {e} has {} bytes and says {n:?}", stdin.len());
            match self.run(stdin) {
                Ok(j) => {
                    let Some(f) = parse_journal(&j) else { violate!("journal-format", "the guest commits {} bytes", j.len()) };
                    must!(f.pre.1.epoch().as_u64() == *e, "wrong-name", "the input recorded for epoch {e} starts from {}", f.pre.1);
                    out.insert(*e, f);
                }
                Err(why) => violate!("unverified", "the input recorded for epoch {e} is refused by the guest: {why}"),
            }
        }
        let mut done = BTreeMap::new();
        for (e, j) in &rec.journals {
            must!(j.len() == 288, "partial-journal", "the journal recorded for epoch {e} has {} bytes", j.len());
            let Some(stdin) = rec.inputs.get(e) else {
                violate!("no-input", "a journal is recorded for epoch {e} without its input")
            };
            must!(self.run(stdin).as_ref() == Ok(j), "other-journal", "the journal recorded for epoch {e} is not what its input proves");
            done.insert(*e, out[e].clone());
        }
        Ok(done)
    }
}
/// The results of an honest chain are the chain's.
fn true_results(case: &Case, done: &BTreeMap<u64, JournalFields>) -> RunResult {
    let fins = case.chain.finalized();
    for (e, f) in done {
        let (pre, post) = ((plain(f.pre.0), plain(f.pre.1)), (plain(f.post.0), plain(f.post.1)));
        must!(fins.contains(&pre.1), "false-start", "the result of epoch {e} starts from {}, which the chain did not finalize", short(pre.1));
        must!(fins.contains(&post.1) && post.1 .0 > *e, "false-finality", "the result of epoch {e} ends at {}, which the chain did not finalize", short(post.1));
        must!(case.chain.by_root.get(&post.1 .1) == Some(&f.slot), "false-slot", "the result of epoch {e} says slot {} for {}", f.slot, short(post.1));
        if let Ok(p) = case.plan(pre.1) {
            must!(pre.0 == p.j, "other-start", "the result of epoch {e} starts with {} justified, the chain has {}", short(pre.0), short(p.j));
            must!(post == p.post, "skipped", "the result of epoch {e} ends at {} {}, the chain went on to {} {}", short(post.0), short(post.1), short(p.post.0), short(p.post.1));
        }
    }
    Ok(())
}
/// Epochs recorded one after the other from a start, and where that ends.
fn walk(done: &BTreeMap<u64, JournalFields>, from: u64) -> (BTreeSet<u64>, u64) {
    let (mut on, mut at) = (BTreeSet::new(), from);
    while let Some(f) = done.get(&at) {
        on.insert(at);
        at = f.post.1.epoch().as_u64();
        if on.contains(&at) {
            break;
        }
    }
    (on, at)
}

fn base_args(ctx: &mut Ctx, net: Net, root: &Path) -> Vec<String> {
    let mut a: Vec<String> = vec!["zkasper".into(), "--beacon-api".into(), URL.into(), "--data-dir".into(), root.join("data").to_string_lossy().into_owned()];
    // sepolia is the default
    if net == Net::Mainnet || ctx.t.chance(1, 2) {
        a.extend(["--network".into(), name(net).into()]);
    }
    let rps = *ctx.t.pick(&[0u64, 0, 20, 100]);
    if rps > 0 {
        a.extend(["--rps".into(), rps.to_string()]);
    }
    a
}
fn draw_disk(ctx: &mut Ctx) -> (Faults, &'static str) {
    let mut faults = Faults::default();
    // what is recorded is little among what is cached
    faults.after = *ctx.t.pick(&[&["inputs", "journals"][..], &["journals"][..], &["inputs", "journals"][..], &[][..]]);
    let span = if faults.after.is_empty() { 120 } else { 24 };
    let kind = match ctx.t.below(5) {
        1 | 2 => {
            faults.crash_at = Some(ctx.t.below(span));
            "crash"
        }
        3 => {
            for _ in 0..1 + ctx.t.below(3) {
                let at = ctx.t.below(span);
                let what = *ctx.t.pick(&[Bad::Io, Bad::Full, Bad::Short, Bad::Intr]);
                faults.bad.push((at, what));
            }
            "errors"
        }
        4 => {
            faults.full_from = Some(ctx.t.below(span));
            let len = ctx.t.below(span);
            faults.full_until = (len > 0).then(|| faults.full_from.unwrap() + len);
            "full"
        }
        _ => "none",
    };
    (faults, kind)
}
fn hard(d: &BTreeMap<&'static str, u64>) -> u64 {
    d.iter().filter(|(k, _)| matches!(**k, "io-error" | "no-space" | "disk-full" | "crash")).map(|(_, n)| n).sum()
}
fn job(ctx: &mut Ctx, args: Vec<String>, head: Head, kill: u64) -> Job {
    Job {
        args,
        head,
        lag: 0,
        weather: Weather::delays(ctx),
        disk: Faults::default(),
        kill,
        order: ctx.t.raw(),
        hash_seed: ctx.t.raw() | 1,
        threads: *ctx.t.pick(&[1usize, 4, 16]),
        split: ctx.t.raw(),
    }
}
fn note(ctx: &mut Ctx, r: &Ran) {
    for (k, v) in r.net.iter().chain(&r.disk.fired) {
        *ctx.faults.entry(k.to_string()).or_default() += v;
    }
    ctx.count_n("requests", r.requests);
    ctx.count_n("events", r.events);
    if r.events > EVENTS {
        ctx.count("ended_after_many_events");
    }
    if r.events > EVENTS / 4 {
        ctx.count("many_events");
    }
    ctx.count_n("disk_operations", r.disk.operations());
    ctx.sim_ms += r.sim_ms;
    ctx.steps += 1;
}
fn brief(h: &How) -> String {
    format!("{h:?}").chars().take(300).collect()
}
/// Why the program cannot go on from an epoch at a head, if it cannot.
fn stuck(case: &Case, epoch: u64, head: u64) -> Option<String> {
    let Some(f) = case.chain.finalized().into_iter().find(|f| f.0 == epoch) else { return Some("not finalized".into()) };
    match case.chain.plan(f, head / SPE) {
        Err(e) => Some(format!("{e:?}")),
        Ok(p) => match case.followable(&p) {
            Err(e) => Some(e.into()),
            Ok(()) if case.hidden_activation(&p) => Some("hidden activation".into()),
            Ok(()) => None,
        },
    }
}

/// Whether the chain has a stretch of which the guest refuses the honest input (recorded finding of C02): its
/// assertions end a program that runs it natively.
fn refusable(case: &Case) -> bool {
    case.chain.finalized().into_iter().any(|f| case.chain.plan(f, case.chain.last() / SPE).is_ok_and(|p| case.hidden_activation(&p)))
}

pub fn c19(ctx: &mut Ctx) -> RunResult {
    risc0_zkvm::sim_register(methods::MAINNET_ELF, Net::Mainnet.main());
    risc0_zkvm::sim_register(methods::SEPOLIA_ELF, Net::Sepolia.main());
    let (case, net) = draw_case(ctx);
    let fins = case.chain.finalized();
    ctx.log(format!("{net:?}, {} validators from epoch {}, finalized {:?}, {:?}", case.chain.profile.n, case.chain.profile.base, fins.iter().map(|f| f.0).collect::<Vec<_>>(), case.chain.events));
    if fins.is_empty() {
        ctx.count("chain-without-finality");
        return Ok(());
    }
    match ctx.t.below(8) {
        0..=4 => record(ctx, case, net),
        5 => sync(ctx, case, net),
        6 => once(ctx, case, net),
        _ => lied_to(ctx, case, net),
    }
}

fn record(ctx: &mut Ctx, case: Case, net: Net) -> RunResult {
    let fins = case.chain.finalized();
    let mut judge = Judge { net, known: BTreeMap::new() };
    let mut root = Scratch::new();
    let mut at = fins[ctx.t.idx(fins.len().min(3))].0;
    // a little before its own successor can be known
    let mut now = ((at + ctx.t.below(4)) * SPE + ctx.t.below(32)).min(case.chain.last());
    let mut held = Records::default();
    let sessions = 1 + ctx.t.below(4);
    let mut shape = vec![];
    for n in 0..=sessions {
        let last = n == sessions;
        let continuous = last || !ctx.t.chance(1, 3);
        // the operator goes on where the records end, or does something again
        let from = if !last && ctx.t.chance(1, 6) { fins[ctx.t.idx(fins.len())].0 } else { at };
        let mut args = base_args(ctx, net, root.path());
        args.extend(["build-input".into(), "--finalized-epoch".into(), from.to_string()]);
        if continuous {
            args.push("--continuous".into());
        }
        let retry = *ctx.t.pick(&[60u64, 12, 400, 5]);
        if retry != 60 || ctx.t.chance(1, 2) {
            args.extend(["--retry-interval".into(), retry.to_string()]);
        }
        let head = if last {
            Head::At(case.chain.last())
        } else {
            Head::Clock { from: now, until: case.chain.last() }
        };
        let kill = if last { 2 * 3_600_000 } else { *ctx.t.pick(&[3_600_000u64, 400_000, 50_000, 5_000]) + ctx.t.below(1_000_000) };
        let mut j = job(ctx, args, head, kill);
        let mut how_bad = "none";
        if !last {
            j.lag = (*ctx.t.pick(&[0u64, 0, 1, 40])).min(now - case.chain.first());
            if ctx.t.chance(1, 2) {
                j.weather.per_mille = *ctx.t.pick(&[3u64, 10, 60]);
                j.weather.budget = 1 + ctx.t.below(3);
                j.weather.kinds = (0..NET_FAULTS.len()).collect();
            }
            (j.disk, how_bad) = draw_disk(ctx);
        } else {
            j.weather.delay_ms = j.weather.delay_ms.min(500);
        }
        // somebody else at work in the same directory
        let mut other = None;
        if !last && ctx.t.chance(1, 4) {
            let at = if ctx.t.chance(1, 2) { from } else { fins[ctx.t.idx(fins.len())].0 };
            let on = ctx.t.chance(1, 2);
            let mut args = base_args(ctx, net, root.path());
            args.extend(["build-input".into(), "--finalized-epoch".into(), at.to_string()]);
            if on {
                args.push("--continuous".into());
            }
            let kill = j.kill / 2 + ctx.t.below(j.kill);
            let head = j.head.clone();
            other = Some((at, on, job(ctx, args, head, kill)));
        }
        let (r, r2) = match &other {
            None => (run(&case.chain, root.path(), &j, || None), None),
            Some((_, _, j2)) => {
                let (a, b) = run_two(ctx, &case.chain, root.path(), &j, j2);
                note(ctx, &b);
                (a, Some(b))
            }
        };
        note(ctx, &r);
        if let Some(t) = r.shortest {
            ctx.count("polled_again");
            must!(t >= retry * 1000, "impatient", "the node was asked for its finality again after {t} ms, the interval is {retry} s");
        }
        if let (Some((_, _, j2)), Some(r2)) = (&other, &r2) {
            ctx.log(format!("together with {:?}, {} requests, {} ms: {}", &j2.args[5..], r2.requests, r2.sim_ms, brief(&r2.how)));
        }
        ctx.log(format!("session {n} at slot {now} from epoch {from}: {:?}, disk {:?}, {} requests, faults {:?} {:?}, {} ms: {}", &j.args[5..], j.disk, r.requests, r.net, r.disk.fired, r.sim_ms, brief(&r.how)));
        for l in r.disk.log.iter().filter(|l| l.contains("inputs") || l.contains("journals")) {
            ctx.log(format!("    {l}"));
        }
        now = (r.head + j.lag).max(now).max(r2.as_ref().map_or(0, |r| r.head));
        let crash = r.disk.fired.contains_key("crash");
        // what the process did, before any loss
        let power = crash && ctx.t.chance(1, 2);
        let rec = if power {
            ctx.fault("power-loss");
            let mut rng = ctx.t.fork();
            let img = r.disk.crash_image(&mut rng);
            let next = Scratch::new();
            sys::write_all(next.path(), &img);
            root = next;
            records(root.path(), net)?
        } else {
            if r.how == How::Killed {
                ctx.fault("kill");
            }
            records(root.path(), net)?
        };
        let done = judge.results(&rec)?;
        true_results(&case, &done)?;
        for (e, b) in &held.journals {
            let known = fins.iter().any(|f| f.0 == *e && case.plan(*f).is_ok());
            must!(rec.journals.contains_key(e) && (!known || rec.journals.get(e) == Some(b)), "lost", "the journal of epoch {e} recorded earlier is gone or different");
        }
        for e in held.inputs.keys() {
            must!(rec.inputs.contains_key(e), "lost", "the input of epoch {e} recorded earlier is gone");
        }
        let (on, end) = walk(&done, from);
        // what each of the processes may have recorded, and where it may have left off
        let mut reach: Vec<(BTreeSet<u64>, u64)> = vec![];
        for (from, continuous) in [(from, continuous)].into_iter().chain(other.iter().map(|o| (o.0, o.1))) {
            reach.push(if continuous { walk(&done, from) } else { (BTreeSet::from([from]), from) });
        }
        for e in rec.journals.keys().filter(|e| held.journals.get(e) != rec.journals.get(e)) {
            must!(reach.iter().any(|r| r.0.contains(e)), "gap", "a result for epoch {e} is recorded, but not the ones between it and {from}, or {from} only was asked for (recorded {:?})", done.keys());
        }
        for e in rec.inputs.keys().filter(|e| held.inputs.get(e) != rec.inputs.get(e)) {
            must!(reach.iter().any(|r| r.0.contains(e) || *e == r.1), "gap", "an input for epoch {e} is recorded, but not the results between it and {from}, or {from} only was asked for (recorded {:?})", done.keys());
        }
        let faulty = r.net.values().sum::<u64>() + hard(&r.disk.fired) > 0;
        match &r.how {
            How::Success => {
                must!(!continuous, "stopped", "following the chain ended with success at epoch {end}");
                must!(power || done.contains_key(&from), "unwritten", "success was reported, but there is no result for epoch {from}");
            }
            // they may get into each other's way
            How::Error(_) if other.is_some() => ctx.count("stopped-with-error"),
            How::Error(e) => {
                // a state in which it could have gone on although it could not wait
                let pos = if continuous { end } else { from };
                // where it stopped: behind the records, or at one made earlier that it tried to make again
                let again = on.iter().copied().filter(|e| continuous && held.journals.contains_key(e));
                let reason = again.chain([pos]).any(|e| stuck(&case, e, r.head).is_some_and(|w| w != "NotYet"));
                must!(faulty || reason, "gave-up", "stopped at epoch {pos} without a reason, head {}: {e}", r.head);
                ctx.count("stopped-with-error");
            }
            How::Killed => {}
            How::Panic(p) => {
            must!(refusable(&case), "panic", "panic: {p}");
            ctx.count("refused-by-assertion");
        }
        }
        if let (Some((from, continuous, _)), Some(r)) = (&other, &r2) {
            match &r.how {
                How::Success => {
                    must!(!continuous, "stopped", "following the chain ended with success");
                    must!(power || done.contains_key(from), "unwritten", "success was reported, but there is no result for epoch {from}");
                }
                How::Panic(p) => {
            must!(refusable(&case), "panic", "panic: {p}");
            ctx.count("refused-by-assertion");
        }
                How::Error(_) | How::Killed => {}
            }
        }
        shape.push((continuous || other.is_some(), how_bad, on.len().min(4)));
        let fresh = rec.journals.iter().filter(|(e, b)| held.journals.get(e) != Some(b)).count();
        ctx.count_n("recorded", fresh as u64);
        held = rec;
        // the records end somewhere; if there is no way on from there the operator starts from the next epoch
        at = walk(&done, at).1;
        if last {
            let why = stuck(&case, at, case.chain.last());
            must!(why.is_some(), "no-progress", "records end at epoch {at} although faults stopped ({})", brief(&r.how));
            ctx.count(&format!("ended_{}", why.unwrap().chars().filter(|c| c.is_ascii_alphabetic()).take(20).collect::<String>()));
        } else if let How::Error(_) = r.how {
            if stuck(&case, at, case.chain.last()).is_some_and(|w| w != "NotYet") {
                if let Some(f) = fins.iter().find(|f| f.0 > at) {
                    at = f.0;
                }
            }
        }
    }
    ctx.cover_of(&(net == Net::Mainnet, shape));
    Ok(())
}

/// `sync`: the log tells how the chain was followed.
fn sync(ctx: &mut Ctx, case: Case, net: Net) -> RunResult {
    let fins = case.chain.finalized();
    let root = Scratch::new();
    let log = root.path().join("logs").join("sync.log");
    let start = {
        let (a, b) = (ctx.t.idx(fins.len()), ctx.t.idx(fins.len()));
        let e = fins[a.min(b)].0 + 2;
        (e * SPE + ctx.t.below(64)).min(case.chain.last())
    };
    let mut args = base_args(ctx, net, root.path());
    let mode = *ctx.t.pick(&["native", "ssz", "r0vm"]);
    args.extend(["sync".into(), "--mode".into(), mode.into(), "--start-slot".into(), start.to_string()]);
    let logged = !ctx.t.chance(1, 6);
    if logged {
        args.extend(["--log-path".into(), log.to_string_lossy().into_owned()]);
    }
    let mut j = job(ctx, args, Head::At(case.chain.last()), 24 * 3_600_000);
    if ctx.t.chance(1, 2) {
        j.weather.per_mille = *ctx.t.pick(&[3u64, 1, 10]);
        j.weather.budget = 1 + ctx.t.below(2);
        j.weather.kinds = (0..NET_FAULTS.len()).collect();
    }
    let r = run(&case.chain, root.path(), &j, || None);
    note(ctx, &r);
    let text = std::fs::read_to_string(&log).unwrap_or_default();
    ctx.log(format!("sync from slot {start} in mode {mode}: {} requests, faults {:?}: {}", r.requests, r.net, brief(&r.how)));
    for l in text.lines() {
        ctx.log(format!("    {l}"));
    }
    let faulty = r.net.values().sum::<u64>() > 0;
    match &r.how {
        How::Error(_) => {}
        How::Killed => violate!("hangs", "sync neither ends nor goes on"),
        How::Success => violate!("stopped", "sync ended with success"),
        How::Panic(p) => {
            must!(refusable(&case), "panic", "panic: {p}");
            ctx.count("refused-by-assertion");
        }
    }
    let s = &case.chain.get(start).unwrap().state;
    let say = |cj: Cp, fin: Cp| format!("{:?}", consensus_state(Checkpoint::new(Epoch::new(cj.0), cj.1.into()), Checkpoint::new(Epoch::new(fin.0), fin.1.into())));
    let mut f = s.fin;
    let mut from = say(s.cj, s.fin);
    for (i, l) in text.lines().enumerate() {
        let Some((move_, msg)) = l.split_once('\t') else { violate!("log", "line {i} of the log: {l}") };
        let Some((a, b)) = move_.split_once(" -> ") else { violate!("log", "line {i} of the log: {l}") };
        must!(a == from, "log-gap", "line {i} of the log starts from {a}, expected {from}");
        match case.plan(f) {
            Ok(p) => {
                let want = say(p.post.0, p.post.1);
                must!(b == want, "log-false", "line {i} of the log goes to {b}, the chain to {want}");
                let hidden = case.hidden_activation(&p);
                // the preflight judges by the balances at the target, the guest by those of the trusted state
                let short_of = case.followable(&p).is_err();
                must!(msg == "Ok" || hidden || short_of, "log-diverges", "line {i} of the log from {} says {msg}", short(f));
                f = p.post.1;
            }
            Err(_) => {
                let to = fins.iter().find(|x| b.contains(&format!("{:?}", alloy_primitives::B256::from(x.1))));
                let Some(x) = to else { violate!("log-false", "line {i} of the log goes to {b}, which the chain did not finalize") };
                f = *x;
            }
        }
        from = b.to_string();
        ctx.count("synced");
    }
    if logged && !faulty {
        let why = stuck(&case, f.0, case.chain.last());
        must!(why.is_some(), "gave-up", "sync stopped at {} without a reason: {}", short(f), brief(&r.how));
    }
    ctx.cover_of(&(net == Net::Mainnet, mode, text.lines().count(), faulty));
    Ok(())
}

/// `verify`: success means the chain finalized something after the epoch.
fn once(ctx: &mut Ctx, case: Case, net: Net) -> RunResult {
    let fins = case.chain.finalized();
    let root = Scratch::new();
    let mut e = fins[ctx.t.idx(fins.len())].0;
    if ctx.t.chance(1, 4) {
        e = e + ctx.t.below(4) - 1;
    }
    let mut args = base_args(ctx, net, root.path());
    let mode = *ctx.t.pick(&["native", "ssz", "r0vm"]);
    args.extend(["verify".into(), "--mode".into(), mode.into(), "--trusted-epoch".into(), e.to_string()]);
    let head = case.chain.last() - ctx.t.below(100).min(case.chain.last() - (e * SPE).min(case.chain.last()));
    let mut j = job(ctx, args, Head::At(head), 24 * 3_600_000);
    if ctx.t.chance(1, 2) {
        j.weather.per_mille = *ctx.t.pick(&[10u64, 3, 60]);
        j.weather.budget = 1 + ctx.t.below(2);
        j.weather.kinds = (0..NET_FAULTS.len()).collect();
    }
    let r = run(&case.chain, root.path(), &j, || None);
    note(ctx, &r);
    ctx.log(format!("verify from epoch {e} at slot {head} in mode {mode}: {} requests, faults {:?}: {}", r.requests, r.net, brief(&r.how)));
    let faulty = r.net.values().sum::<u64>() > 0;
    let f = fins.iter().find(|f| f.0 == e);
    match &r.how {
        How::Success => {
            let Some(f) = f else { violate!("false-start", "success from epoch {e}, which the chain did not finalize") };
            let known = fins.iter().any(|x| x.0 > f.0 && case.chain.get(head).unwrap().state.fin.0 >= x.0);
            must!(known, "false-finality", "success from epoch {e} although the chain finalized nothing after it");
            ctx.count("verified");
        }
        How::Error(m) => {
            let why = stuck(&case, e, head);
            must!(faulty || why.is_some(), "gave-up", "verification from epoch {e} failed without a reason: {m}");
            ctx.count("not-verified");
        }
        How::Killed => violate!("hangs", "verification does not end"),
        How::Panic(p) => {
            must!(refusable(&case), "panic", "panic: {p}");
            ctx.count("refused-by-assertion");
        }
    }
    must!(records(root.path(), net)? == Records::default(), "odd-name", "verification records results");
    ctx.cover_of(&(net == Net::Mainnet, mode, brief(&r.how).chars().take(8).collect::<String>(), faulty));
    Ok(())
}

/// Recording against a node that lies: what is recorded must still verify.
fn lied_to(ctx: &mut Ctx, case: Case, net: Net) -> RunResult {
    let fins = case.chain.finalized();
    let mut judge = Judge { net, known: BTreeMap::new() };
    let root = Scratch::new();
    let other_seed = ctx.t.raw();
    let other = Arc::new(Chain::build(&case.chain.spec, &case.chain.profile, other_seed));
    let f = fins[ctx.t.idx(fins.len())];
    let n = 1 + ctx.t.below(2);
    let told = lies::draw(ctx, n, f.0);
    let mut args = base_args(ctx, net, root.path());
    let continuous = ctx.t.chance(1, 2);
    args.extend(["build-input".into(), "--finalized-epoch".into(), f.0.to_string()]);
    if continuous {
        args.push("--continuous".into());
    }
    let j = job(ctx, args, Head::At(case.chain.last()), 3_600_000);
    let counts: Arc<Vec<AtomicU64>> = Arc::new(LIES.iter().map(|_| AtomicU64::new(0)).collect());
    let seed = ctx.t.raw();
    let (a, b, head, c2, t2) = (case.chain.clone(), other.clone(), case.head, counts.clone(), told.clone());
    let r = run(&case.chain, root.path(), &j, move || Some(lies::liar(t2, a, b, head, seed, c2)));
    note(ctx, &r);
    for (i, k) in LIES.iter().enumerate() {
        let n = counts[i].load(Ordering::Relaxed);
        if n > 0 {
            *ctx.faults.entry(k.to_string()).or_default() += n;
        }
    }
    ctx.log(format!("from epoch {} told {told:?}: {} requests: {}", f.0, r.requests, brief(&r.how)));
    let rec = records(root.path(), net)?;
    let done = judge.results(&rec)?;
    let (on, _) = walk(&done, f.0);
    must!(done.keys().all(|e| on.contains(e)), "gap", "results {:?} do not follow each other from epoch {}", done.keys(), f.0);
    match &r.how {
        How::Success => must!(!continuous && done.contains_key(&f.0), "unwritten", "success was reported, but there is no result for epoch {}", f.0),
        How::Panic(_) => ctx.count("panic"),
        _ => {}
    }
    ctx.count_n("recorded-with-lies", done.len() as u64);
    let kinds: Vec<usize> = told.iter().map(|l| l.kind).collect();
    ctx.cover_of(&("lies", kinds, done.len()));
    Ok(())
}
