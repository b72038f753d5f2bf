//! A fixed, hand-made scene for demonstrations: minimal preset, equal balances, everybody honest.
use crate::scene::*;
use crate::world::*;
use beacon_types::MinimalEthSpec;
use simkit::Rng;
use std::collections::{BTreeMap, BTreeSet};
use z_core::{Epoch, EthSpec};

pub type M = MinimalEthSpec;

pub fn world(f: u64, j: u64, n: usize, fulu: Option<u64>, lookahead: u64) -> World<M> {
    let mut spec = M::default_spec();
    spec.config_name = Some("demo".into());
    spec.altair_fork_epoch = Some(Epoch::new(0));
    spec.bellatrix_fork_epoch = Some(Epoch::new(0));
    spec.capella_fork_epoch = Some(Epoch::new(0));
    spec.deneb_fork_epoch = Some(Epoch::new(0));
    spec.electra_fork_epoch = Some(Epoch::new(0));
    spec.fulu_fork_epoch = fulu.map(Epoch::new);
    spec.gloas_fork_epoch = None;
    spec.target_committee_size = 4;
    let cfg = config(&spec, lookahead, 85, 100);
    let profile = Profile { n, equal: true, slashed: 0, leaving: 0, exited: 0, joining: 0, skipped_boundary: false };
    World::with(spec, cfg, simtree::sha(b"demo"), f, j, 7, profile)
}

pub fn scene(w: World<M>, links: &[(u64, u64)]) -> Scene<M> {
    Scene::new(w, links.to_vec(), Rng::new(11))
}

pub fn run(sc: &Scene<M>, d: &Draft<M>) -> Outcome {
    let b = d.encode().expect("input serializes");
    deliver::<M>(&b, &sc.w.spec, &sc.w.cfg, &BTreeSet::new()).0
}

pub fn none() -> BTreeMap<u64, Patch> {
    BTreeMap::new()
}
