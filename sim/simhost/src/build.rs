//! Building an input with the real host code against a simulated node, and judging what comes out.
use crate::api::{Head, Log, NET_FAULTS, Node, Twist, Weather, connect};
use crate::chain::{Chain, Cp};
use crate::sys;
use host::host_input_reader::HostInputReader;
use host::preflight_input_reader::PreflightInputReader;
use host::{BeaconClient, CacheStateProvider, PersistentApiStateProvider, StateProvider};
use simkit::{Ctx, Rng};
use std::collections::BTreeMap;
use std::path::PathBuf;
use std::sync::Arc;
use z_core::{ChainSpec, Checkpoint, Config, ConsensusState, Epoch, EthSpec, GuestInput, InputReader, MainnetEthSpec};

pub type E = MainnetEthSpec;

/// The circumstances of one build.
#[derive(Clone, Debug)]
pub struct Env {
    pub head: u64,
    pub lag: u64,
    pub weather: Weather,
    pub rps: u32,
    /// directory of the state cache
    pub dir: PathBuf,
    /// keep states in memory as well
    pub memory: bool,
    pub hash_seed: u64,
    /// order of tasks with the same due time (0: as created)
    pub order: u64,
    pub threads: usize,
    pub split: u64,
    /// states asked for beforehand
    pub warm: Vec<u64>,
    /// further epochs the readers are asked about before the input is made
    pub probe: Vec<u64>,
    /// make the input without verifying first
    pub unverified: bool,
    pub disk: Option<sys::Faults>,
}
impl Env {
    pub fn plain(head: u64, dir: PathBuf) -> Self {
        Env {
            head,
            lag: 0,
            weather: Weather::calm(),
            rps: 0,
            dir,
            memory: true,
            hash_seed: 1,
            order: 0,
            threads: 1,
            split: 0,
            warm: vec![],
            probe: vec![],
            unverified: false,
            disk: None,
        }
    }
    pub fn draw(ctx: &mut Ctx, chain: &Chain, head: u64, dir: PathBuf) -> Self {
        let mut e = Env::plain(head, dir);
        e.weather = Weather::delays(ctx);
        e.rps = *ctx.t.pick(&[0u32, 0, 5, 50]);
        e.memory = !ctx.t.chance(1, 4);
        e.hash_seed = ctx.t.raw() | 1;
        e.order = ctx.t.raw();
        e.threads = *ctx.t.pick(&[1usize, 2, 8, 16]);
        e.split = ctx.t.raw();
        for _ in 0..ctx.t.below(5) {
            let s = chain.first() + ctx.t.below(chain.slots.len() as u64);
            e.warm.push(if ctx.t.chance(1, 2) { s - s % 32 } else { s });
        }
        e.warm.retain(|s| *s <= head);
        e
    }
    pub fn faults(&mut self, ctx: &mut Ctx, budget: u64) {
        self.weather.per_mille = *ctx.t.pick(&[10u64, 3, 60]);
        self.weather.budget = budget;
        self.weather.kinds = (0..NET_FAULTS.len()).collect();
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Built {
    pub bytes: Vec<u8>,
    pub pre: ConsensusState,
    pub post: ConsensusState,
    pub slot: u64,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Stop {
    /// creating the reader failed
    Reader(String),
    Preflight(String),
    Input(String),
    Panic(String),
    Killed,
}
impl Stop {
    pub fn stage(&self) -> &'static str {
        match self {
            Stop::Reader(_) => "reader",
            Stop::Preflight(_) => "preflight",
            Stop::Input(_) => "input",
            Stop::Panic(_) => "panic",
            Stop::Killed => "killed",
        }
    }
}
/// What the readers said about one epoch.
#[derive(Clone, Debug, PartialEq)]
pub struct Said {
    pub active: Vec<(usize, [u8; 48], u64, bool)>,
    pub seed: Option<[u8; 32]>,
}
#[derive(Clone, Debug)]
pub struct Done {
    pub result: Result<Built, Stop>,
    pub said: BTreeMap<u64, Said>,
    pub requests: u64,
    pub log: Vec<(String, u16, bool)>,
    pub sent: Vec<(u64, String)>,
    pub faults: BTreeMap<&'static str, u64>,
    pub disk: BTreeMap<&'static str, u64>,
    pub order: u64,
    pub sim_ms: u64,
    pub events: u64,
}

pub fn say<R: InputReader>(r: &R, epoch: u64) -> Result<Said, String> {
    let e = Epoch::new(epoch);
    let active = r
        .active_validators(e)
        .map_err(|e| format!("{e:?}"))?
        .map(|(i, v)| (i, v.pubkey.serialize(), v.effective_balance, v.slashed))
        .collect();
    let n = E::epochs_per_historical_vector() as u64;
    let mix = r.randao_mix(e, ((epoch + n - 2) % n) as _).map_err(|e| format!("{e:?}"))?;
    let seed = mix.map(|m| {
        let mut b = vec![1, 0, 0, 0];
        b.extend_from_slice(&epoch.to_le_bytes());
        b.extend_from_slice(&m.0);
        simtree::sha(&b)
    });
    Ok(Said { active, seed })
}

pub const URL: &str = "http://node.sim:5052/";

fn cp(c: Cp) -> Checkpoint {
    Checkpoint::new(Epoch::new(c.0), c.1.into())
}

async fn run<P: StateProvider<Spec = E>>(
    provider: P,
    client: BeaconClient,
    spec: ChainSpec,
    cfg: &Config,
    f: Cp,
    env: &Env,
    said: &mut BTreeMap<u64, Said>,
) -> Result<Built, Stop> {
    for s in &env.warm {
        let _ = provider.state_at_slot((*s).into());
    }
    let trusted = cp(f);
    let reader = HostInputReader::<E, _, _>::new(spec, provider, client.clone(), trusted).await.map_err(|e| Stop::Reader(format!("{e:?}")))?;
    let pre = PreflightInputReader::new(&reader, client, trusted);
    let (post, slot) = if env.unverified {
        (pre.consensus_state().map_err(|e| Stop::Preflight(format!("{e:?}")))?, 0)
    } else {
        z_core::verify(cfg, &pre).map_err(|e| Stop::Preflight(format!("{e:?}")))?
    };
    for e in &env.probe {
        match say(&pre, *e) {
            Ok(s) => {
                said.insert(*e, s);
            }
            Err(e) => return Err(Stop::Preflight(e)),
        }
    }
    let input: GuestInput<E> = pre.to_input().map_err(|e| Stop::Input(format!("{e:?}")))?;
    let bytes = bincode::serialize(&input).map_err(|e| Stop::Input(format!("{e:?}")))?;
    Ok(Built { bytes, pre: input.consensus_state, post, slot })
}

/// One simulated process on a fresh thread.
pub fn isolated<T: Send>(env: &Env, body: impl FnOnce() -> T + Send) -> T {
    let hash_seed = env.hash_seed;
    let plan = rayon_core::sim::Plan { threads: env.threads.max(1), seed: env.split, random: env.split != 0, preempt: 0 };
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn_scoped(s, move || {
                sys::seed_random(Some(hash_seed));
                sys::set_pid(Some(7 + (hash_seed >> 32 & 1) as i32));
                rayon_core::sim::install(plan);
                let r = simkit::catch(body);
                rayon_core::sim::clear();
                sys::seed_random(None);
                sys::set_pid(None);
                r
            })
            .unwrap()
            .join()
            .unwrap_or_else(|p| std::panic::resume_unwind(p))
    })
    .unwrap_or_else(|m| panic!("harness: {m}"))
}

pub fn panic_text(p: &(dyn std::any::Any + Send)) -> String {
    p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into())
}

pub fn build(chain: &Arc<Chain>, cfg: &Config, f: Cp, env: &Env) -> Done {
    build_with(chain, cfg, f, env, || None)
}
pub fn build_with(chain: &Arc<Chain>, cfg: &Config, f: Cp, env: &Env, twist: impl FnOnce() -> Option<Twist> + Send) -> Done {
    isolated(env, || {
        simrt::enter(env.order, 0);
        let node = Node { chain: chain.clone(), head: Head::At(env.head), lag: env.lag };
        let log: Log = connect(node, env.weather.clone(), twist());
        let mut said = BTreeMap::new();
        if let Some(d) = &env.disk {
            sys::open_disk(&env.dir, d.clone());
        }
        let r = simrt::process(|| {
            simrt::block_on(async {
                let url = url::Url::parse(URL).unwrap();
                let client = BeaconClient::builder(url).with_rate_limit(env.rps).build();
                let files = PersistentApiStateProvider::<E>::new(&env.dir, client.clone()).map_err(|e| Stop::Reader(format!("{e:?}")))?;
                let spec = chain.spec.clone();
                if env.memory {
                    run(CacheStateProvider::new(files), client, spec, cfg, f, env, &mut said).await
                } else {
                    run(files, client, spec, cfg, f, env, &mut said).await
                }
            })
        });
        let disk = if env.disk.is_some() { sys::close_disk().fired } else { BTreeMap::new() };
        let sent = simrt::net::take_sent();
        let st = simrt::leave();
        let result = match r {
            simrt::Ended::Returned(r) => r,
            simrt::Ended::Killed(_) => Err(Stop::Killed),
            simrt::Ended::Panicked(p) => Err(Stop::Panic(panic_text(&*p))),
        };
        let mut seen = log.borrow_mut();
        Done {
            result,
            said,
            requests: seen.requests,
            log: std::mem::take(&mut seen.log),
            sent,
            faults: std::mem::take(&mut seen.faults),
            disk,
            order: st.order,
            sim_ms: st.sim_ms,
            events: st.events,
        }
    })
}

/// The verifier's answer to an input as it would arrive at the guest.
pub struct Verdict {
    pub result: Result<(ConsensusState, u64), String>,
    pub pre: Option<ConsensusState>,
    pub said: BTreeMap<u64, Said>,
}
pub fn verify(spec: &ChainSpec, cfg: &Config, bytes: &[u8], epochs: &[u64]) -> Verdict {
    let mut v = Verdict { result: Err(String::new()), pre: None, said: BTreeMap::new() };
    let r = simkit::catch(|| {
        let input: GuestInput<E> = bincode::deserialize(bytes).map_err(|e| format!("decode: {e}"))?;
        v.pre = Some(input.consensus_state.clone());
        let reader = input.into_reader(spec.clone()).map_err(|e| format!("input: {e:?}"))?;
        for e in epochs {
            if let Ok(Ok(s)) = simkit::catch(|| say(&reader, *e)) {
                v.said.insert(*e, s);
            }
        }
        z_core::verify(cfg, &reader).map_err(|e| format!("verify: {e:?}"))
    });
    v.result = match r {
        Ok(x) => x.map(|(s, n)| (s, n)),
        Err(p) => Err(format!("panic: {p}")),
    };
    v
}
pub fn merge(ctx: &mut Ctx, d: &Done) {
    for (k, n) in &d.faults {
        *ctx.faults.entry(k.to_string()).or_default() += n;
    }
    for (k, n) in &d.disk {
        *ctx.faults.entry(k.to_string()).or_default() += n;
    }
    ctx.count_n("requests", d.requests);
    ctx.count_n("events", d.events);
    ctx.sim_ms += d.sim_ms;
    ctx.steps += 1;
}

pub fn cps(s: &ConsensusState) -> (Cp, Cp) {
    let c = |c: Checkpoint| (c.epoch().as_u64(), c.root().0);
    (c(s.current_justified_checkpoint()), c(s.finalized_checkpoint()))
}

/// A network whose forks lie around the simulated epochs.
pub fn network(ctx: &mut Ctx) -> (ChainSpec, u64) {
    // a few are close to where slot numbers gain a digit, the mixes wrap around, or words overflow
    let base = match ctx.t.below(8) {
        7 => ctx.t.pick(&[31u64, 312, 3_125, 31_250, 312_500, 65_536, 131_072, 1 << 27]) - ctx.t.below(8),
        _ => 1 + ctx.t.below(12),
    };
    let mut spec = E::default_spec();
    spec.config_name = Some("sim".into());
    let e = |x: u64| Some(Epoch::new(x));
    spec.altair_fork_epoch = e(0);
    spec.bellatrix_fork_epoch = e(0);
    spec.capella_fork_epoch = e(0);
    spec.deneb_fork_epoch = e(0);
    spec.electra_fork_epoch = e(if ctx.t.chance(1, 2) { base - 1 } else { 0 });
    spec.fulu_fork_epoch = match ctx.t.below(3) {
        0 => None,
        1 => e(base + ctx.t.below(8)),
        _ => e(base.saturating_sub(1).max(spec.electra_fork_epoch.unwrap().as_u64())),
    };
    spec.gloas_fork_epoch = None;
    spec.target_committee_size = *ctx.t.pick(&[4usize, 1, 2, 128]);
    // consolidations need a churn above what exits may use
    spec.churn_limit_quotient = *ctx.t.pick(&[65536u64, 8, 4]);
    spec.shuffle_round_count = *ctx.t.pick(&[10u8, 90]);
    (spec, base)
}
pub fn thresholds(ctx: &mut Ctx) -> Config {
    let (a, b) = *ctx.t.pick(&[(2u64, 3u64), (70, 100), (85, 100)]);
    Config { justification_threshold_factor: a, justification_threshold_quotient: b, ..z_core::DEFAULT_CONFIG.clone() }
}
pub fn reaches(cfg: &Config, with: u64, all: u64) -> bool {
    with as u128 * cfg.justification_threshold_quotient as u128 >= all as u128 * cfg.justification_threshold_factor as u128
}
pub fn rng(ctx: &mut Ctx) -> Rng {
    ctx.t.fork()
}
