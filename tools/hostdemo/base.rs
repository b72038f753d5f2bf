//! A fixed chain and circumstances for demonstrations: equal balances, nearly everybody votes in time.
use crate::build::*;
use crate::chain::*;
use std::path::PathBuf;
use std::sync::Arc;
use z_core::{ChainSpec, Config, Epoch, EthSpec};

pub fn spec() -> ChainSpec {
    let mut spec = E::default_spec();
    spec.config_name = Some("demo".into());
    let e = |x: u64| Some(Epoch::new(x));
    spec.altair_fork_epoch = e(0);
    spec.bellatrix_fork_epoch = e(0);
    spec.capella_fork_epoch = e(0);
    spec.deneb_fork_epoch = e(0);
    spec.electra_fork_epoch = e(0);
    spec.fulu_fork_epoch = None;
    spec.gloas_fork_epoch = None;
    spec.target_committee_size = 4;
    spec.shuffle_round_count = 10;
    spec
}
pub fn cfg() -> Config {
    Config { justification_threshold_factor: 2, justification_threshold_quotient: 3, ..z_core::DEFAULT_CONFIG.clone() }
}
pub fn profile(base: u64, epochs: u64, n: usize) -> Profile {
    Profile {
        n,
        base,
        epochs,
        equal: true,
        slashed: 0,
        leaving: 0,
        exited: 0,
        joining: 0,
        low: 0,
        skip: 0,
        ops: 0,
        drift: 0,
        modes: vec![Mode::Full; epochs as usize + 1],
        deposits: true,
        boundary: vec![None; epochs as usize + 1],
        outage: (0, 0),
    }
}
pub fn chain(p: &Profile, seed: u64) -> Arc<Chain> {
    Arc::new(Chain::build(&spec(), p, seed))
}
/// Every plan for following the chain from one of its finalized checkpoints.
pub fn plans(c: &Arc<Chain>) -> Vec<Plan> {
    c.finalized().into_iter().filter_map(|f| c.plan(f, c.last() / SPE).ok()).collect()
}
pub fn env(c: &Arc<Chain>, dir: &crate::sys::Scratch) -> Env {
    Env::plain(c.last(), dir.path().to_path_buf())
}
