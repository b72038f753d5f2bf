//! The shipped guest programs and their networks.
use crate::world::*;
use simkit::Ctx;
use std::collections::BTreeSet;
use beacon_types::ForkName;
use z_core::{ChainSpec, Checkpoint, Config, Epoch, MainnetEthSpec};

#[path = "/repo/methods/guest/src/bin/mainnet.rs"]
#[allow(dead_code)]
mod mainnet;
#[path = "/repo/methods/guest/src/bin/sepolia.rs"]
#[allow(dead_code)]
mod sepolia;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Net {
    Mainnet,
    Sepolia,
}
impl Net {
    pub fn genesis_validators_root(self) -> [u8; 32] {
        simtree::sha(format!("{self:?}").as_bytes())
    }
    /// Published parameters of the network.
    pub fn forks(self) -> Vec<(u64, [u8; 4])> {
        match self {
            Net::Mainnet => vec![
                (0, [0, 0, 0, 0]),
                (74240, [1, 0, 0, 0]),
                (144896, [2, 0, 0, 0]),
                (194048, [3, 0, 0, 0]),
                (269568, [4, 0, 0, 0]),
                (364032, [5, 0, 0, 0]),
                (411392, [6, 0, 0, 0]),
            ],
            Net::Sepolia => vec![
                (0, [0x90, 0, 0, 0x69]),
                (50, [0x90, 0, 0, 0x70]),
                (100, [0x90, 0, 0, 0x71]),
                (56832, [0x90, 0, 0, 0x72]),
                (132608, [0x90, 0, 0, 0x73]),
                (222464, [0x90, 0, 0, 0x74]),
                (272640, [0x90, 0, 0, 0x75]),
            ],
        }
    }
    pub fn threshold(self) -> (u64, u64) {
        match self {
            Net::Mainnet => (85, 100),
            Net::Sepolia => (70, 100),
        }
    }
    /// The network as its published parameters describe it, not as the repository's files do.
    pub fn spec(self) -> ChainSpec {
        let mut s = ChainSpec::mainnet();
        let f = self.forks();
        s.genesis_fork_version = f[0].1;
        s.altair_fork_version = f[1].1;
        s.altair_fork_epoch = Some(Epoch::new(f[1].0));
        s.bellatrix_fork_version = f[2].1;
        s.bellatrix_fork_epoch = Some(Epoch::new(f[2].0));
        s.capella_fork_version = f[3].1;
        s.capella_fork_epoch = Some(Epoch::new(f[3].0));
        s.deneb_fork_version = f[4].1;
        s.deneb_fork_epoch = Some(Epoch::new(f[4].0));
        s.electra_fork_version = f[5].1;
        s.electra_fork_epoch = Some(Epoch::new(f[5].0));
        s.fulu_fork_version = f[6].1;
        s.fulu_fork_epoch = Some(Epoch::new(f[6].0));
        s
    }
    pub fn config(self) -> Config {
        let (a, b) = self.threshold();
        Config { min_version: ForkName::Electra, max_version: ForkName::Fulu, ..config(&self.spec(), 4, a, b) }
    }
    /// The configuration in the repository.
    pub fn code_config(self) -> Config {
        match self {
            Net::Mainnet => z_core::DEFAULT_CONFIG.clone(),
            Net::Sepolia => z_core::SEPOLIA_CONFIG.clone(),
        }
    }
    pub fn file_spec(self) -> ChainSpec {
        match self {
            Net::Mainnet => chainspec::mainnet_spec(),
            Net::Sepolia => chainspec::sepolia_spec(),
        }
    }
    pub fn main(self) -> fn() {
        match self {
            Net::Mainnet => mainnet::__sim_main,
            Net::Sepolia => sepolia::__sim_main,
        }
    }
}

/// A world of one of the two networks, near one of the supported fork boundaries or far from them.
pub fn network_world(ctx: &mut Ctx) -> (World<MainnetEthSpec>, Net) {
    let net = *ctx.t.pick(&[Net::Mainnet, Net::Sepolia]);
    (world_of(ctx, net), net)
}
pub fn world_of(ctx: &mut Ctx, net: Net) -> World<MainnetEthSpec> {
    let forks = net.forks();
    let f = match ctx.t.below(3) {
        0 => forks[5].0 + 10 + ctx.t.below(1000),
        1 => forks[6].0 - 1 - ctx.t.below(6),
        _ => forks[6].0 + ctx.t.below(50),
    };
    let j = f + 1 + ctx.t.below(3);
    let profile = Profile {
        n: 40 + ctx.t.below(60) as usize,
        equal: ctx.t.chance(1, 2),
        slashed: *ctx.t.pick(&[0u64, 5, 10]),
        leaving: 8,
        exited: 10,
        joining: 10,
        skipped_boundary: ctx.t.chance(1, 3),
    };
    let seed = ctx.t.raw();
    World::with(net.spec(), net.config(), net.genesis_validators_root(), f, j, seed, profile)
}

/// Journal fields by the ABI rules: nine words.
#[derive(Clone, Debug, PartialEq)]
pub struct JournalFields {
    pub pre: (Checkpoint, Checkpoint),
    pub post: (Checkpoint, Checkpoint),
    pub slot: u64,
}
pub fn parse_u64(w: &[u8]) -> Option<u64> {
    if w[..24].iter().any(|b| *b != 0) {
        return None;
    }
    Some(u64::from_be_bytes(w[24..32].try_into().unwrap()))
}
pub fn parse_cp(w: &[u8]) -> Option<Checkpoint> {
    let root: [u8; 32] = w[32..64].try_into().unwrap();
    Some(Checkpoint::new(Epoch::new(parse_u64(w)?), root.into()))
}
pub fn parse_journal(b: &[u8]) -> Option<JournalFields> {
    if b.len() != 288 {
        return None;
    }
    Some(JournalFields {
        pre: (parse_cp(&b[0..])?, parse_cp(&b[64..])?),
        post: (parse_cp(&b[128..])?, parse_cp(&b[192..])?),
        slot: parse_u64(&b[256..])?,
    })
}

pub fn guest_journal(main: impl FnOnce(), bytes: &[u8]) -> Result<Vec<u8>, (String, Vec<u8>)> {
    let stdin = risc0_zkvm::sim_frame(bytes);
    let mut out = None;
    let r = simkit::catch(|| out = Some(risc0_zkvm::sim_run(&stdin, main)));
    match (r, out) {
        (Ok(()), Some(x)) => x,
        (e, _) => Err((e.err().unwrap_or_default(), vec![])),
    }
}

/// Runs the network's own guest program on the input.
pub fn run_guest(net: &Net, bytes: &[u8]) -> Outcome {
    match guest_journal(net.main(), bytes) {
        Err((why, _)) => Outcome::Reject { at: "guest", why },
        Ok(j) => match parse_journal(&j) {
            None => Outcome::Reject { at: "journal", why: "unreadable journal".into() },
            Some(f) => Outcome::Accept { post: consensus_state(f.post.0, f.post.1), slot: f.slot },
        },
    }
}
#[allow(unused)]
pub fn no_epochs() -> BTreeSet<u64> {
    BTreeSet::new()
}
