//! The state caches: on disk under crashes and disk faults (C11), and any stack of them against the
//! chain (C12).
use crate::api::{Head, Log, NET_FAULTS, Node, Weather, connect};
use crate::build::*;
use crate::chain::{Chain, Cp, Profile, SPE};
use crate::sys::{self, Bad, Faults, Image, Relay, Scratch};
use host::{BeaconClient, CacheStateProvider, FileProvider, PersistentApiStateProvider, StateProvider, StateProviderError, StateRef};
use simkit::{Ctx, RunResult, Violation, must, violate};
use ssz_rs::HashTreeRoot;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::sync::Arc;
use std::time::Duration;
use z_core::{Checkpoint, Epoch};

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
enum Op {
    Slot(u64),
    Epoch(u64),
    Boundary(u64),
    Checkpoint(Cp),
    Root,
    Clear(u64),
    /// store a state that was obtained elsewhere
    Save(u64),
    /// go on with a copy of the provider
    Copy,
    Wait(u64),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
enum Stack {
    File,
    Api,
    MemFile,
    MemApi,
    MemMemApi,
}
/// What came out of one operation.
#[derive(Clone, Debug, PartialEq)]
enum Out {
    /// slot and root of the state
    State(u64, [u8; 32]),
    Root([u8; 32]),
    NotFound,
    BadCheckpoint,
    Error(String),
    Done,
}

enum Any {
    File(FileProvider<E>),
    Api(PersistentApiStateProvider<E>),
    MemFile(CacheStateProvider<FileProvider<E>>),
    MemApi(CacheStateProvider<PersistentApiStateProvider<E>>),
    MemMemApi(CacheStateProvider<CacheStateProvider<PersistentApiStateProvider<E>>>),
}
impl Any {
    fn new(stack: Stack, dir: &Path, client: &BeaconClient) -> anyhow::Result<Self> {
        let api = || PersistentApiStateProvider::<E>::new(dir, client.clone());
        Ok(match stack {
            Stack::File => Any::File(FileProvider::new(dir)?),
            Stack::Api => Any::Api(api()?),
            Stack::MemFile => Any::MemFile(CacheStateProvider::new(FileProvider::new(dir)?)),
            Stack::MemApi => Any::MemApi(CacheStateProvider::new(api()?)),
            Stack::MemMemApi => Any::MemMemApi(CacheStateProvider::new(CacheStateProvider::new(api()?))),
        })
    }
    fn copy(&self) -> Self {
        match self {
            Any::File(p) => Any::File(p.clone()),
            Any::Api(p) => Any::Api(p.clone()),
            Any::MemFile(p) => Any::MemFile(p.clone()),
            Any::MemApi(p) => Any::MemApi(p.clone()),
            Any::MemMemApi(p) => Any::MemMemApi(p.clone()),
        }
    }
    fn clear(&self, e: u64) -> anyhow::Result<()> {
        let e = Epoch::new(e);
        match self {
            Any::File(p) => p.clear_states_before(e),
            Any::Api(p) => p.clear_states_before(e),
            Any::MemFile(p) => p.inner().clear_states_before(e),
            Any::MemApi(p) => p.inner().clear_states_before(e),
            Any::MemMemApi(p) => p.inner().inner().clear_states_before(e),
        }
    }
    fn run(&self, op: Op) -> Out {
        match self {
            Any::File(p) => look(p, op),
            Any::Api(p) => look(p, op),
            Any::MemFile(p) => look(p, op),
            Any::MemApi(p) => look(p, op),
            Any::MemMemApi(p) => look(p, op),
        }
    }
}
fn look<P: StateProvider<Spec = E>>(p: &P, op: Op) -> Out {
    let state = |r: Result<StateRef, StateProviderError>| match r {
        Ok(s) => Out::State(s.slot(), s.hash_tree_root().map(|r| <[u8; 32]>::try_from(r.as_ref()).unwrap()).unwrap_or_default()),
        Err(StateProviderError::NotFound(_)) => Out::NotFound,
        Err(StateProviderError::InvalidCheckpoint) => Out::BadCheckpoint,
        Err(StateProviderError::Other(e)) => Out::Error(format!("{e:#}")),
    };
    match op {
        Op::Slot(s) => state(p.state_at_slot(s.into())),
        Op::Epoch(e) => state(p.state_at_epoch(Epoch::new(e))),
        Op::Boundary(e) => state(p.state_at_epoch_boundary(Epoch::new(e))),
        Op::Checkpoint(c) => state(p.state_at_checkpoint(Checkpoint::new(Epoch::new(c.0), c.1.into()))),
        Op::Root => match p.genesis_validators_root() {
            Ok(r) => Out::Root(r.0),
            Err(StateProviderError::NotFound(_)) => Out::NotFound,
            Err(StateProviderError::InvalidCheckpoint) => Out::BadCheckpoint,
            Err(StateProviderError::Other(e)) => Out::Error(format!("{e:#}")),
        },
        _ => Out::Done,
    }
}

/// One process using a provider.
struct Session<'a> {
    chain: &'a Arc<Chain>,
    dir: PathBuf,
    stack: Stack,
    head: Head,
    weather: Weather,
    faults: Faults,
    hash_seed: u64,
    pid: i32,
    /// shares the disk with other processes
    relay: Option<(Arc<Relay>, usize)>,
    ops: Vec<Op>,
}
#[derive(Default, Clone, Debug)]
struct Step {
    out: Option<Out>,
    /// head before and after
    head: (u64, u64),
    /// network and disk faults met
    net: u64,
    disk: u64,
    requests: u64,
}
struct Ran {
    steps: Vec<Step>,
    killed: bool,
    panic: Option<String>,
    /// none if it was shared
    disk: Option<sys::Disk>,
    net: BTreeMap<&'static str, u64>,
    sim_ms: u64,
    open: Result<(), String>,
}
fn hard(d: &BTreeMap<&'static str, u64>) -> u64 {
    d.iter().filter(|(k, _)| matches!(**k, "io-error" | "no-space" | "disk-full" | "crash")).map(|(_, n)| n).sum()
}
/// States of a chain as the host represents them.
pub fn host_state(chain: &Chain, slot: u64) -> Option<host::mainnet::BeaconState> {
    let v: serde_json::Value = serde_json::from_str(&chain.get(slot)?.state.state_json()).ok()?;
    serde_json::from_value(v.get("data")?.clone()).ok()
}
impl Session<'_> {
    fn run(&self) -> Ran {
        let mut env = Env::plain(0, self.dir.clone());
        env.hash_seed = self.hash_seed;
        isolated(&env, || {
            simrt::enter(0, 0);
            let mk = || Node { chain: self.chain.clone(), head: self.head.clone(), lag: 0 };
            let node = mk();
            let log: Log = connect(mk(), self.weather.clone(), None);
            let mut steps: Vec<Step> = vec![];
            let mut open = Ok(());
            let ready: BTreeMap<u64, _> = self
                .ops
                .iter()
                .filter_map(|o| match o {
                    Op::Save(s) => host_state(self.chain, *s).map(|x| (*s, x)),
                    _ => None,
                })
                .collect();
            sys::set_pid(Some(self.pid));
            let body = || {
                simrt::block_on(async {
                    let client = BeaconClient::builder(url::Url::parse(URL).unwrap()).build();
                    let mut p = match Any::new(self.stack, &self.dir, &client) {
                        Ok(p) => p,
                        Err(e) => {
                            open = Err(format!("{e:#}"));
                            return;
                        }
                    };
                    for op in &self.ops {
                        let before = (log.borrow().faults.values().sum::<u64>(), hard(&sys::fired()), log.borrow().requests);
                        let h = node.head_slot();
                        steps.push(Step { head: (h, h), ..Step::default() });
                        let out = match op {
                            Op::Clear(e) => match p.clear(*e) {
                                Ok(()) => Out::Done,
                                Err(e) => Out::Error(format!("{e:#}")),
                            },
                            Op::Save(s) => match (FileProvider::<E>::new(&self.dir), ready.get(s)) {
                                (Ok(f), Some(x)) => match f.save_state(x) {
                                    Ok(()) => Out::Done,
                                    Err(e) => Out::Error(format!("{e:#}")),
                                },
                                (Err(e), _) => Out::Error(format!("{e:#}")),
                                (_, None) => Out::NotFound,
                            },
                            Op::Copy => {
                                p = p.copy();
                                Out::Done
                            }
                            Op::Wait(ms) => {
                                simrt::sleep(Duration::from_millis(*ms)).await;
                                Out::Done
                            }
                            op => p.run(*op),
                        };
                        let s = steps.last_mut().unwrap();
                        s.net = log.borrow().faults.values().sum::<u64>() - before.0;
                        s.disk = hard(&sys::fired()) - before.1;
                        s.requests = log.borrow().requests - before.2;
                        s.head.1 = node.head_slot();
                        if sys::crashed() {
                            // nobody is left to see what came out
                            break;
                        }
                        // the scratch directory's name says nothing
                        s.out = Some(match out {
                            Out::Error(e) => Out::Error(e.replace(&*self.dir.to_string_lossy(), "")),
                            o => o,
                        });
                    }
                })
            };
            let (r, crashed, disk) = match &self.relay {
                None => {
                    sys::open_disk(&self.dir, self.faults.clone());
                    let r = simrt::process(body);
                    (r, sys::crashed(), Some(sys::close_disk()))
                }
                Some((relay, me)) => relay.run(*me, || (simrt::process(body), sys::crashed(), None)),
            };
            sys::set_pid(None);
            let st = simrt::leave();
            let (killed, panic) = match r {
                simrt::Ended::Returned(()) => (crashed, None),
                simrt::Ended::Killed(_) => (true, None),
                simrt::Ended::Panicked(p) => (crashed, Some(panic_text(&*p))),
            };
            let net = std::mem::take(&mut log.borrow_mut().faults);
            Ran { steps, killed, panic, disk, net, sim_ms: st.sim_ms, open }
        })
    }
}

/// What the chain says about an operation, at a head between two slots.
fn expect(chain: &Chain, op: Op, head: u64) -> Option<Out> {
    let st = |s: u64| {
        if s == 0 {
            return None; // the genesis state has no tree in the simulated chain
        }
        if s > head {
            return Some(Out::NotFound);
        }
        Some(match chain.get(s) {
            Some(x) => Out::State(s, x.state.root_of()),
            None => Out::NotFound,
        })
    };
    // the slot of the latest block at the start of an epoch, as the state there tells it
    let boundary = |e: u64| chain.start(e).map(|s| s.header.slot);
    match op {
        Op::Slot(s) => st(s),
        Op::Epoch(e) => st(e * SPE),
        Op::Boundary(e) => match st(e * SPE)? {
            Out::NotFound => Some(Out::NotFound),
            _ => st(boundary(e)?),
        },
        Op::Checkpoint(c) => match st(c.0 * SPE)? {
            Out::NotFound => Some(Out::NotFound),
            _ => match st(boundary(c.0)?)? {
                Out::NotFound => Some(Out::NotFound),
                x if chain.checkpoint(c.0) == Some(c) => Some(x),
                _ => Some(Out::BadCheckpoint),
            },
        },
        Op::Root => Some(Out::Root(chain.gvr)),
        _ => Some(Out::Done),
    }
}

fn small_case(ctx: &mut Ctx) -> Arc<Chain> {
    let (spec, base) = network(ctx);
    let mut profile = Profile::draw(ctx, base, false);
    profile.epochs = profile.epochs.min(4 + ctx.t.below(4));
    let seed = ctx.t.raw();
    Arc::new(Chain::build(&spec, &profile, seed))
}
fn any_slot(ctx: &mut Ctx, c: &Chain, touched: &[u64]) -> u64 {
    if !touched.is_empty() && ctx.t.chance(1, 2) {
        return touched[ctx.t.idx(touched.len())];
    }
    let s = c.first() + ctx.t.below(c.last() - c.first() + 1);
    if ctx.t.chance(1, 2) { s - s % SPE } else { s }
}
fn any_cp(ctx: &mut Ctx, c: &Chain) -> Cp {
    let e = c.profile.base + ctx.t.below(c.profile.epochs);
    let mut cp = c.checkpoint(e).unwrap_or((e, [0; 32]));
    match ctx.t.below(6) {
        4 => {
            let i = ctx.t.idx(32);
            cp.1[i] ^= 1;
        }
        5 => cp.0 += 1,
        _ => {}
    }
    cp
}
fn slots_of(chain: &Chain, op: Op) -> Vec<u64> {
    let b = |e: u64| chain.start(e).map_or(vec![], |s| vec![e * SPE, s.header.slot]);
    match op {
        Op::Slot(s) | Op::Save(s) => vec![s],
        Op::Epoch(e) => vec![e * SPE],
        Op::Boundary(e) => b(e),
        Op::Checkpoint(c) => b(c.0),
        _ => vec![],
    }
}

/// Which slots a fresh process finds on disk, each checked.
fn find(chain: &Arc<Chain>, dir: &Path, slots: &BTreeSet<u64>) -> Result<BTreeSet<u64>, Violation> {
    let ops: Vec<Op> = slots.iter().map(|s| Op::Slot(*s)).collect();
    let s = Session { chain, dir: dir.to_path_buf(), stack: Stack::File, head: Head::At(chain.last()), weather: Weather::calm(), faults: Faults::default(), hash_seed: 1, pid: 7, relay: None, ops: ops.clone() };
    let r = s.run();
    if let Some(p) = r.panic {
        violate!("panic-at-restart", "a restarted process panics while reading its cache: {p}");
    }
    let mut found = BTreeSet::new();
    for (op, st) in ops.iter().zip(&r.steps) {
        let Op::Slot(slot) = *op else { unreachable!() };
        match (&st.out, expect(chain, *op, chain.last())) {
            (Some(Out::NotFound), _) => {}
            (Some(x), Some(e)) => {
                must!(!matches!(x, Out::Error(_)), "stuck", "after a restart the cached state of slot {slot} can neither be read nor replaced: {x:?}");
                must!(*x == e, "wrong-state", "after a restart the cache has {x:?} for slot {slot}, the chain {e:?}");
                found.insert(slot);
            }
            (Some(x), None) => {
                must!(matches!(x, Out::State(0, _)), "wrong-state", "the cache has {x:?} for slot 0");
                found.insert(slot);
            }
            (None, _) => violate!("no-answer", "no answer for slot {slot}"),
        }
    }
    Ok(found)
}

/// What one process is to do.
fn errands(ctx: &mut Ctx, chain: &Arc<Chain>, touched: &mut Vec<u64>) -> (Stack, Vec<Op>) {
    let stack = *ctx.t.pick(&[Stack::Api, Stack::MemApi, Stack::File, Stack::Api]);
    let mut ops = vec![];
    for _ in 0..1 + ctx.t.below(8) {
        let op = match ctx.t.below(12) {
            0..=4 => Op::Slot(any_slot(ctx, chain, touched)),
            5 => Op::Epoch(chain.profile.base + ctx.t.below(chain.profile.epochs)),
            6 => Op::Checkpoint(any_cp(ctx, chain)),
            7 => Op::Boundary(chain.profile.base + ctx.t.below(chain.profile.epochs)),
            8 | 9 => Op::Save(any_slot(ctx, chain, touched)),
            10 => Op::Clear((chain.profile.base + ctx.t.below(chain.profile.epochs + 1)).saturating_sub(1)),
            _ => Op::Root,
        };
        touched.extend(slots_of(chain, op));
        ops.push(op);
    }
    (stack, ops)
}
/// What goes wrong on the disk.
fn trouble(ctx: &mut Ctx, span: u64) -> (u64, Faults) {
    let mut faults = Faults::default();
    let mode = ctx.t.below(5);
    match mode {
        1 | 2 => faults.crash_at = Some(ctx.t.below(span)),
        3 => {
            for _ in 0..1 + ctx.t.below(4) {
                let at = ctx.t.below(span);
                let what = *ctx.t.pick(&[Bad::Io, Bad::Full, Bad::Short, Bad::Intr]);
                faults.bad.push((at, what));
            }
        }
        4 => {
            faults.full_from = Some(ctx.t.below(span));
            let len = ctx.t.below(span);
            faults.full_until = (len > 0).then(|| faults.full_from.unwrap() + len);
        }
        _ => {}
    }
    (mode, faults)
}
/// Several processes that use the same directory at the same time, taking turns at every operation on
/// the disk. What they are told may be an error, as one may remove or create what another looks at; what
/// they are given, and what is left, must be right all the same.
fn together(ctx: &mut Ctx, chain: &Arc<Chain>, dir: Scratch, touched: &mut Vec<u64>, held: BTreeSet<u64>, n: u64) -> Result<(Scratch, BTreeSet<u64>), Violation> {
    let many = 2 + ctx.t.below(2);
    let mut work = vec![];
    for _ in 0..many {
        work.push(errands(ctx, chain, touched));
    }
    if ctx.t.chance(1, 2) {
        // the same errand for all
        let first = work[0].1[0];
        for w in &mut work {
            w.1.insert(0, first);
        }
    }
    let total: usize = work.iter().map(|w| w.1.len()).sum();
    let (mode, faults) = trouble(ctx, 8 + 8 * total as u64);
    let every = *ctx.t.pick(&[2u64, 1, 4, 8]);
    let rng = ctx.t.fork();
    let seeds: Vec<u64> = (0..many).map(|_| ctx.t.raw() | 1).collect();
    sys::open_disk(dir.path(), faults.clone());
    let relay = Relay::new(many as usize, every, rng);
    let sessions: Vec<Session> = work
        .iter()
        .enumerate()
        .map(|(i, (stack, ops))| Session { chain, dir: dir.path().to_path_buf(), stack: *stack, head: Head::At(chain.last()), weather: Weather::calm(), faults: Faults::default(), hash_seed: seeds[i], pid: 7 + i as i32, relay: Some((relay.clone(), i)), ops: ops.clone() })
        .collect();
    let rans: Vec<Ran> = std::thread::scope(|s| {
        let hs: Vec<_> = sessions.iter().map(|x| s.spawn(|| x.run())).collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|p| std::panic::resume_unwind(p))).collect()
    });
    let (disk, switches) = relay.finish();
    for (k, v) in &disk.fired {
        *ctx.faults.entry(k.to_string()).or_default() += v;
    }
    *ctx.faults.entry("process-switch".into()).or_default() += switches;
    ctx.count("concurrent-sessions");
    ctx.log(format!("session {n}: {many} processes together, faults {faults:?}: {} operations on the disk, {switches} switches", disk.operations()));
    for (i, r) in rans.iter().enumerate() {
        ctx.steps += r.steps.len() as u64;
        ctx.sim_ms += r.sim_ms;
        ctx.log(format!("  process {i} {:?}, {}", sessions[i].stack, if r.killed { "killed" } else { "ended" }));
        for (op, st) in sessions[i].ops.iter().zip(&r.steps) {
            ctx.log(format!("    {op:?} -> {:?} ({} requests)", st.out, st.requests));
        }
    }
    for l in &disk.log {
        ctx.log(format!("    {l}"));
    }
    let mut keep = held.clone();
    let mut cleaned: BTreeSet<u64> = BTreeSet::new();
    let mut gone: BTreeSet<u64> = BTreeSet::new();
    let mut kept: BTreeSet<u64> = BTreeSet::new();
    let mut used: BTreeSet<u64> = BTreeSet::new();
    for (x, r) in sessions.iter().zip(&rans) {
        if let Some(p) = &r.panic {
            violate!("panic", "panic in session {n}: {p}");
        }
        must!(r.open.is_ok() || r.killed || disk.fired.values().sum::<u64>() > 0, "no-start", "session {n} could not open its directory: {:?}", r.open);
        for (op, st) in x.ops.iter().zip(&r.steps) {
            if let Op::Clear(e) = op {
                cleaned.extend(held.iter().chain(touched.iter()).filter(|s| **s < e * SPE));
                if st.out == Some(Out::Done) {
                    gone.extend(held.iter().filter(|s| **s < e * SPE));
                }
                continue;
            }
            used.extend(slots_of(chain, *op));
            match (op, &st.out) {
                (_, None | Some(Out::Error(_))) => {}
                (Op::Save(s), Some(Out::Done)) => {
                    kept.insert(*s);
                }
                (_, Some(Out::NotFound)) if x.stack == Stack::File => {}
                (op, Some(out)) => {
                    let want = expect(chain, *op, chain.last());
                    must!(want.is_none() && matches!(out, Out::State(0, _)) || want.as_ref() == Some(out), "wrong-state", "{op:?} gave {out:?}, the chain has {want:?}");
                    if matches!(out, Out::State(..)) && x.stack != Stack::MemApi {
                        kept.extend(slots_of(chain, *op));
                    }
                }
            }
        }
    }
    keep.extend(kept);
    keep.retain(|s| !cleaned.contains(s));
    gone.retain(|s| !used.contains(s));
    let down = rans.iter().any(|r| r.killed);
    let power = (down || mode > 0) && ctx.t.chance(1, 2);
    let img: Image = if power {
        let mut rng = ctx.t.fork();
        ctx.fault("power-loss");
        disk.crash_image(&mut rng)
    } else {
        if down {
            ctx.fault("kill");
        }
        sys::read_all(dir.path())
    };
    must!(img.files.get(Path::new("notes.txt")).is_some_and(|b| b == b"kept by the operator"), "foreign-file", "a file of the operator was changed or removed");
    let next = Scratch::new();
    sys::write_all(next.path(), &img);
    let all: BTreeSet<u64> = touched.iter().copied().collect();
    let found = find(chain, next.path(), &all)?;
    let must_have: BTreeSet<u64> = if power { held.difference(&cleaned).copied().collect() } else { keep };
    let lost: Vec<&u64> = must_have.difference(&found).collect();
    must!(lost.is_empty(), "lost", "states of slots {lost:?} were stored and not cleaned, but are gone (session {n}, power loss {power})");
    if !power {
        let left: Vec<&u64> = found.intersection(&gone).collect();
        must!(left.is_empty(), "not-cleaned", "states of slots {left:?} are still there after cleaning");
    }
    ctx.cover_of(&(many, mode, power, down, switches.min(60), disk.operations().min(60), found.len()));
    Ok((next, found))
}

pub fn c11(ctx: &mut Ctx) -> RunResult {
    let chain = small_case(ctx);
    let mut dir = Scratch::new();
    std::fs::write(dir.path().join("notes.txt"), b"kept by the operator").unwrap();
    // states known to be complete on the medium
    let mut held: BTreeSet<u64> = BTreeSet::new();
    let mut touched: Vec<u64> = vec![];
    let sessions = 1 + ctx.t.below(4);
    for n in 0..sessions {
        if ctx.t.chance(1, 4) {
            (dir, held) = together(ctx, &chain, dir, &mut touched, held, n)?;
            continue;
        }
        let (stack, ops) = errands(ctx, &chain, &mut touched);
        let span = 8 + 8 * ops.len() as u64;
        let (mode, faults) = trouble(ctx, span);
        let mut weather = Weather::calm();
        if ctx.t.chance(1, 4) {
            weather.per_mille = 300;
            weather.budget = 1 + ctx.t.below(3);
            weather.kinds = (0..NET_FAULTS.len()).collect();
            weather.seed = ctx.t.raw();
        }
        let pid = 7 + ctx.t.below(2) as i32;
        let s = Session { chain: &chain, dir: dir.path().to_path_buf(), stack, head: Head::At(chain.last()), weather, faults, hash_seed: ctx.t.raw() | 1, pid, relay: None, ops: ops.clone() };
        let r = s.run();
        ctx.steps += r.steps.len() as u64;
        ctx.sim_ms += r.sim_ms;
        let disk = r.disk.as_ref().expect("own disk");
        for (k, v) in r.net.iter().chain(&disk.fired) {
            *ctx.faults.entry(k.to_string()).or_default() += v;
        }
        ctx.log(format!("session {n}: {stack:?}, faults {:?}: {} operations on the disk, {}", s.faults, disk.operations(), if r.killed { "killed" } else { "ended" }));
        for (op, st) in ops.iter().zip(&r.steps) {
            ctx.log(format!("  {op:?} -> {:?} ({} requests)", st.out, st.requests));
        }
        for l in &disk.log {
            ctx.log(format!("    {l}"));
        }
        if let Some(p) = &r.panic {
            violate!("panic", "panic in session {n}: {p}");
        }
        must!(r.open.is_ok() || r.killed, "no-start", "session {n} could not open its directory: {:?}", r.open);
        let mut keep = held.clone();
        let mut gone: BTreeSet<u64> = BTreeSet::new();
        // what was cleaned in this session may be back without being on the medium
        let mut cleaned: BTreeSet<u64> = BTreeSet::new();
        for (op, st) in ops.iter().zip(&r.steps) {
            let Some(out) = &st.out else {
                if let Op::Clear(e) = op {
                    keep.retain(|s| *s >= e * SPE);
                    cleaned.extend(held.iter().filter(|s| **s < e * SPE));
                }
                for s in slots_of(&chain, *op) {
                    gone.remove(&s);
                }
                break;
            };
            match op {
                Op::Clear(e) => {
                    // removes exactly what lies before, and nothing else even if it fails
                    keep.retain(|s| *s >= e * SPE);
                    cleaned.extend(held.iter().filter(|s| **s < e * SPE));
                    if *out == Out::Done {
                        gone.retain(|s| *s >= e * SPE);
                        gone.extend(touched.iter().chain(&held).filter(|s| **s < e * SPE));
                    }
                    must!(*out == Out::Done || st.disk > 0, "clear-failed", "cleaning failed without a fault: {out:?}");
                }
                Op::Save(slot) => match out {
                    Out::Done => {
                        keep.insert(*slot);
                        gone.remove(slot);
                    }
                    // refused because it is already there
                    _ => must!(st.disk > 0 || keep.contains(slot) || gone_unknown(&r, slot), "save-failed", "storing slot {slot} failed without a fault: {out:?}"),
                },
                op => {
                    let want = expect(&chain, *op, chain.last());
                    let excuse = st.net + st.disk > 0;
                    match (out, want) {
                        (Out::Error(_), _) if excuse => {}
                        (Out::NotFound, _) if matches!(stack, Stack::File) => {}
                        (Out::Error(e), Some(Out::NotFound)) => {
                            // the API has no such state
                            must!(!matches!(stack, Stack::File), "error", "{op:?}: {e}");
                        }
                        (x, Some(w)) => must!(*x == w, if matches!(x, Out::Error(_)) { "unavailable" } else { "wrong-state" }, "{op:?} gave {x:?}, the chain has {w:?}"),
                        (Out::State(0, _), None) => {}
                        (x, None) => violate!("wrong-state", "{op:?} gave {x:?}"),
                    }
                    if let (Out::State(..), false) = (out, matches!(stack, Stack::MemApi | Stack::MemFile | Stack::MemMemApi)) {
                        for s in slots_of(&chain, *op) {
                            gone.remove(&s);
                            keep.insert(s);
                        }
                    } else {
                        for s in slots_of(&chain, *op) {
                            gone.remove(&s);
                        }
                    }
                }
            }
        }
        // what is left
        let power = (r.killed || mode > 0) && ctx.t.chance(1, 2);
        let img: Image = if power {
            let mut rng = ctx.t.fork();
            ctx.fault("power-loss");
            disk.crash_image(&mut rng)
        } else {
            if r.killed {
                ctx.fault("kill");
            }
            sys::read_all(dir.path())
        };
        must!(img.files.get(Path::new("notes.txt")).is_some_and(|b| b == b"kept by the operator"), "foreign-file", "a file of the operator was changed or removed");
        let next = Scratch::new();
        sys::write_all(next.path(), &img);
        dir = next;
        let all: BTreeSet<u64> = touched.iter().copied().collect();
        let found = find(&chain, dir.path(), &all)?;
        let must_have: BTreeSet<u64> = if power {
            // directory changes of this session may be undone, earlier content not
            held.difference(&cleaned).copied().collect()
        } else {
            keep.clone()
        };
        let lost: Vec<&u64> = must_have.difference(&found).collect();
        must!(lost.is_empty(), "lost", "states of slots {lost:?} were stored and not cleaned, but are gone (session {n}, power loss {power})");
        if !power {
            let left: Vec<&u64> = found.intersection(&gone).collect();
            must!(left.is_empty(), "not-cleaned", "states of slots {left:?} are still there after cleaning");
        }
        held = found;
        ctx.cover_of(&(stack, mode, power, r.killed, disk.operations().min(40), held.len()));
    }
    // once faults stop everything can be had, and is kept
    let mut last: Vec<Op> = touched.iter().filter(|s| **s <= chain.last()).map(|s| Op::Slot(*s)).collect();
    last.sort();
    last.dedup();
    let s = Session { chain: &chain, dir: dir.path().to_path_buf(), stack: Stack::Api, head: Head::At(chain.last()), weather: Weather::calm(), faults: Faults::default(), hash_seed: 7, pid: 7, relay: None, ops: last.clone() };
    let r = s.run();
    if let Some(p) = &r.panic {
        violate!("panic", "panic after faults stopped: {p}");
    }
    for (op, st) in last.iter().zip(&r.steps) {
        let want = expect(&chain, *op, chain.last());
        let out = st.out.clone().unwrap_or(Out::Done);
        match (want, &out) {
            (Some(Out::State(a, b)), x) => must!(*x == Out::State(a, b), "unavailable", "{op:?} gives {x:?} although faults stopped"),
            (None, Out::State(0, _)) | (Some(_), _) => {}
            (None, x) => violate!("unavailable", "{op:?} gives {x:?} although faults stopped"),
        }
    }
    Ok(())
}
fn gone_unknown(r: &Ran, slot: &u64) -> bool {
    // it came into being earlier in this session
    r.disk.iter().flat_map(|d| &d.log).any(|l| l.contains(&format!("rename {slot}_")) || l.contains(&format!("create {slot}_")))
}

pub fn c12(ctx: &mut Ctx) -> RunResult {
    let chain = small_case(ctx);
    let dir = Scratch::new();
    let mut touched: Vec<u64> = vec![];
    // files that are certainly there (true), certainly not (false); absent: unknown
    let mut file: BTreeMap<u64, bool> = BTreeMap::new();
    let sessions = 1 + ctx.t.below(3);
    for n in 0..sessions {
        let stack = *ctx.t.pick(&[Stack::MemApi, Stack::Api, Stack::File, Stack::MemFile, Stack::MemMemApi]);
        let grows = ctx.t.chance(1, 3);
        let head = if grows {
            let from = chain.first() + ctx.t.below(chain.last() - chain.first() + 1);
            Head::Clock { from, until: chain.last() }
        } else {
            Head::At(chain.last() - ctx.t.below(40).min(chain.last() - chain.first()))
        };
        let mut ops = vec![];
        for _ in 0..2 + ctx.t.below(14) {
            let e = |ctx: &mut Ctx| chain.profile.base + ctx.t.below(chain.profile.epochs + 1);
            let op = match ctx.t.below(16) {
                0..=4 => Op::Slot(any_slot(ctx, &chain, &touched)),
                5 => Op::Epoch(e(ctx)),
                6..=8 => Op::Checkpoint(any_cp(ctx, &chain)),
                9 | 10 => Op::Boundary(e(ctx)),
                11 => Op::Save(any_slot(ctx, &chain, &touched)),
                12 => Op::Clear(e(ctx).saturating_sub(1)),
                13 => Op::Root,
                14 => Op::Copy,
                _ => Op::Wait(*ctx.t.pick(&[12_000u64, 1000, 400_000])),
            };
            touched.extend(slots_of(&chain, op));
            ops.push(op);
        }
        let mut weather = Weather::delays(ctx);
        if ctx.t.chance(1, 2) {
            weather.per_mille = *ctx.t.pick(&[300u64, 100, 700]);
            weather.budget = 1 + ctx.t.below(6);
            weather.kinds = (0..NET_FAULTS.len()).collect();
        }
        let pid = 7 + ctx.t.below(2) as i32;
        let s = Session { chain: &chain, dir: dir.path().to_path_buf(), stack, head: head.clone(), weather, faults: Faults::default(), hash_seed: ctx.t.raw() | 1, pid, relay: None, ops: ops.clone() };
        let r = s.run();
        ctx.steps += r.steps.len() as u64;
        ctx.sim_ms += r.sim_ms;
        for (k, v) in &r.net {
            *ctx.faults.entry(k.to_string()).or_default() += v;
        }
        ctx.log(format!("session {n}: {stack:?}, {head:?}"));
        for (op, st) in ops.iter().zip(&r.steps) {
            ctx.log(format!("  {op:?} at head {} -> {:?} ({} requests, {} faults)", st.head.0, st.out, st.requests, st.net));
        }
        if let Some(p) = &r.panic {
            violate!("panic", "panic in session {n}: {p}");
        }
        must!(!r.killed && r.open.is_ok(), "no-start", "session could not start: {:?}", r.open);
        let memory = matches!(stack, Stack::MemApi | Stack::MemFile | Stack::MemMemApi);
        let online = matches!(stack, Stack::Api | Stack::MemApi | Stack::MemMemApi);
        // slots surely in the memory of this session
        let mut mem: BTreeSet<u64> = BTreeSet::new();
        // and those that may be there
        let mut maybe: BTreeSet<u64> = BTreeSet::new();
        let mut kinds = BTreeSet::new();
        for (op, st) in ops.iter().zip(&r.steps) {
            let out = st.out.clone().unwrap();
            kinds.insert(format!("{op:?}").chars().take(5).collect::<String>());
            let cached = |s: u64| memory && mem.contains(&s) || file.get(&s) == Some(&true);
            match op {
                Op::Copy | Op::Wait(_) => continue,
                Op::Clear(e) => {
                    must!(out == Out::Done, "clear-failed", "cleaning failed: {out:?}");
                    for s in touched.iter().chain([&0]).filter(|s| **s < e * SPE) {
                        file.insert(*s, false);
                    }
                    continue;
                }
                Op::Save(s) => {
                    match file.get(s).copied().unwrap_or(false) {
                        _ if out == Out::Done => must!(file.get(s) != Some(&true), "saved-twice", "the state of slot {s} was replaced"),
                        true => {}
                        false => must!(file.get(s).is_none(), "save-failed", "storing slot {s} failed: {out:?}"),
                    }
                    file.insert(*s, true);
                    continue;
                }
                Op::Root => {
                    match &out {
                        Out::Root(g) => must!(*g == chain.gvr, "wrong-root", "genesis validators root {g:?}"),
                        Out::Error(_) => must!(st.net > 0, "unavailable", "no genesis validators root without a fault: {out:?}"),
                        x => must!(*x == Out::NotFound && !online && !cached(0) && mem.is_empty(), "unavailable", "no genesis validators root: {x:?}"),
                    }
                    if matches!(out, Out::Root(_)) && st.requests > 0 {
                        file.insert(0, true);
                    } else if matches!(out, Out::Error(_)) {
                        file.remove(&0);
                    }
                    if matches!(out, Out::Root(_)) && memory && mem.is_empty() {
                        mem.insert(0);
                    }
                    continue;
                }
                _ => {}
            }
            // the slots this lookup needs, in order
            let need = slots_of(&chain, *op);
            let first = expect(&chain, *op, u64::MAX);
            let absent = first.is_none() || first == Some(Out::NotFound) || need.is_empty();
            let reach = |h: u64| need.iter().all(|s| cached(*s) || (online && *s <= h));
            match &out {
                Out::State(..) => {
                    must!(!absent, "made-up", "{op:?} gave {out:?}, the chain has no such state");
                    must!(Some(&out) == first.as_ref(), "wrong-state", "{op:?} gave {out:?}, the chain has {first:?}");
                    must!(reach(st.head.1) || need.iter().any(|s| !file.contains_key(s) || maybe.contains(s)), "from-nowhere", "{op:?} gave a state that is in no cache and not on the chain yet");
                }
                Out::BadCheckpoint => {
                    must!(first == Some(Out::BadCheckpoint), "checkpoint-refused", "{op:?} was refused, the chain has {first:?}");
                }
                Out::NotFound => {
                    must!(!online, "absent", "{op:?}: not found by a provider with an API");
                    must!(!reach(u64::MAX) || absent, "absent", "{op:?}: not found although it is stored");
                }
                Out::Error(e) => {
                    must!(online, "error", "{op:?}: {e} without an API");
                    must!(st.net > 0 || absent || !reach(st.head.0), "unavailable", "{op:?}: {e} without a fault, head {:?}", st.head);
                }
                _ => {}
            }
            if let Out::State(..) | Out::BadCheckpoint = out {
                for s in need {
                    if memory {
                        mem.insert(s);
                    }
                    if st.requests > 0 || !memory {
                        // fetched or read
                        if online && !(memory && st.requests < 1) {
                            file.entry(s).or_insert(true);
                            if st.requests as usize >= slots_of(&chain, *op).iter().collect::<BTreeSet<_>>().len() {
                                file.insert(s, true);
                            } else if file.get(&s) == Some(&false) {
                                file.remove(&s);
                            }
                        }
                    }
                }
            } else {
                // a part of it may have been stored
                for s in need {
                    if memory {
                        maybe.insert(s);
                    }
                    if file.get(&s) == Some(&false) {
                        file.remove(&s);
                    }
                }
            }
        }
        ctx.cover_of(&(stack, grows, kinds.len(), r.net.len(), touched.len().min(20)));
    }
    Ok(())
}
