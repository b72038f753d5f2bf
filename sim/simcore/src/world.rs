//! A simulated chain seen from one trusted checkpoint, its validators, and an honest input builder.
//! Everything here is written from the consensus specification and the repository's documents, on the
//! sparse trees of `simtree`; nothing of the code under test is used to compute expectations.
use alloy_primitives::B256;
use beacon_types::{AttestationBase, AttestationElectra};
use bls::{AggregateSignature, Keypair, PublicKey};
use simkit::{catch, Ctx, Rng};
use simtree::{hash2, sha, Node, H};
use simwire::{prove, Codec, Wire};
use ssz_multiproofs::Multiproof;
use ssz_types::{BitList, BitVector};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use z_core::{
    Attestation, AttestationData, ChainSpec, Checkpoint, Config, ConsensusState, Epoch, EthSpec, GuestInput, InputReader,
    StatePatch, ValidatorInfo,
};

pub const FAR: u64 = u64::MAX;
pub const ETH: u64 = 1_000_000_000;

#[derive(Clone, Debug, PartialEq)]
pub struct Val {
    pub key: u64,
    pub eff: u64,
    pub slashed: bool,
    pub elig: u64,
    pub act: u64,
    pub exit: u64,
}

pub fn key(i: u64) -> Rc<Keypair> {
    thread_local! {
        static K: RefCell<HashMap<u64, Rc<Keypair>>> = RefCell::default();
    }
    K.with(|k| k.borrow_mut().entry(i).or_insert_with(|| Rc::new(Keypair::simulated(1, i))).clone())
}

/// Withdrawal credentials are the depositor's choice; some look like the second half of a key.
pub fn credentials(k: u64) -> H {
    let pk = key(k).pk.serialize();
    if k % 8 != 3 {
        return sha(&pk);
    }
    let mut b = [0; 32];
    b[..16].copy_from_slice(&pk[32..]);
    b[8] ^= 1;
    b
}
pub fn val_tree(v: &Val) -> Node {
    let pk = key(v.key).pk.serialize();
    let mut a = [0; 32];
    let mut b = [0; 32];
    a.copy_from_slice(&pk[..32]);
    b[..16].copy_from_slice(&pk[32..]);
    let chunks = [
        Node::branch(Node::leaf(a), Node::leaf(b)),
        Node::leaf(credentials(v.key)),
        Node::u64(v.eff),
        Node::u64(v.slashed as u64),
        Node::u64(v.elig),
        Node::u64(v.act),
        Node::u64(v.exit),
        Node::u64(if v.exit == FAR { FAR } else { v.exit + if v.slashed { 8187 } else { 256 } }),
    ];
    Node::merkleize(&chunks, 3)
}

/// A finalizable checkpoint: its block, post-state and registry.
pub struct Snap {
    pub epoch: u64,
    pub slot: u64,
    pub fin: u64,
    pub vals: Vec<Val>,
    pub earliest_exit: u64,
    pub earliest_consolidation: u64,
    pub list: Node,
    pub state: Node,
    pub header: Node,
}
impl Snap {
    pub fn root(&self) -> B256 {
        self.header.root().into()
    }
}

pub const BASE: u64 = 1 << 41;
pub const STATE_GINDICES: [u64; 9] = [65, 66, 268, 269, 270, 75, 168, 95, 97];

#[derive(Clone, Default, Debug, PartialEq)]
pub struct Patch {
    pub mixes: BTreeMap<u32, H>,
    pub exits: BTreeMap<usize, u64>,
}

/// One statement signed by a set of validators.
#[derive(Clone, Debug)]
pub struct Signed {
    pub data: AttestationData,
    pub domain: H,
    pub signers: BTreeSet<usize>,
}

pub struct Committees(pub Vec<Vec<Vec<usize>>>);

pub struct World<E: EthSpec> {
    pub spec: ChainSpec,
    pub cfg: Config,
    pub gvr: H,
    pub f: u64,
    pub j: u64,
    pub seed: u64,
    pub snaps: RefCell<BTreeMap<u64, Rc<Snap>>>,
    pub profile: Profile,
    _e: std::marker::PhantomData<E>,
}

#[derive(Clone, Debug)]
pub struct Profile {
    pub n: usize,
    pub equal: bool,
    /// chances out of 100
    pub slashed: u64,
    pub leaving: u64,
    pub exited: u64,
    pub joining: u64,
    pub skipped_boundary: bool,
}

impl Profile {
    /// Fewer validators, except in the few worlds that are meant to be large.
    pub fn limit(&mut self, n: usize) {
        if self.n < 2048 {
            self.n = self.n.min(n);
        }
    }
}

pub fn spe<E: EthSpec>() -> u64 {
    E::slots_per_epoch()
}

/// Fork schedule as (epoch, version) in order.
pub fn schedule(s: &ChainSpec) -> Vec<(u64, [u8; 4])> {
    let mut v = vec![(0, s.genesis_fork_version)];
    for (e, ver) in [
        (s.altair_fork_epoch, s.altair_fork_version),
        (s.bellatrix_fork_epoch, s.bellatrix_fork_version),
        (s.capella_fork_epoch, s.capella_fork_version),
        (s.deneb_fork_epoch, s.deneb_fork_version),
        (s.electra_fork_epoch, s.electra_fork_version),
        (s.fulu_fork_epoch, s.fulu_fork_version),
        (s.gloas_fork_epoch, s.gloas_fork_version),
    ] {
        if let Some(e) = e {
            v.push((e.as_u64(), ver));
        }
    }
    v
}
/// Index into the list of fork names (0 = phase 0) of the fork in force.
pub fn fork_at(s: &ChainSpec, epoch: u64) -> usize {
    let all = [
        Some(0),
        s.altair_fork_epoch.map(|e| e.as_u64()),
        s.bellatrix_fork_epoch.map(|e| e.as_u64()),
        s.capella_fork_epoch.map(|e| e.as_u64()),
        s.deneb_fork_epoch.map(|e| e.as_u64()),
        s.electra_fork_epoch.map(|e| e.as_u64()),
        s.fulu_fork_epoch.map(|e| e.as_u64()),
        s.gloas_fork_epoch.map(|e| e.as_u64()),
    ];
    (0..all.len()).rev().find(|i| all[*i].is_some_and(|e| e <= epoch)).unwrap()
}
pub fn version_at(s: &ChainSpec, epoch: u64) -> [u8; 4] {
    schedule(s).into_iter().rev().find(|(e, _)| *e <= epoch).unwrap().1
}
pub fn domain(ty: u32, version: [u8; 4], gvr: &H) -> H {
    let mut v = [0; 32];
    v[..4].copy_from_slice(&version);
    let r = hash2(&v, gvr);
    let mut d = [0; 32];
    d[..4].copy_from_slice(&ty.to_le_bytes());
    d[4..].copy_from_slice(&r[..28]);
    d
}
pub fn u64_chunk(v: u64) -> H {
    let mut c = [0; 32];
    c[..8].copy_from_slice(&v.to_le_bytes());
    c
}
pub fn signing_root(d: &AttestationData, domain: &H) -> H {
    let cp = |c: &beacon_types::Checkpoint| hash2(&u64_chunk(c.epoch.as_u64()), &c.root.0);
    let z = [0; 32];
    let l = hash2(
        &hash2(&hash2(&u64_chunk(d.slot.as_u64()), &u64_chunk(d.index)), &hash2(&d.beacon_block_root.0, &cp(&d.source))),
        &hash2(&hash2(&cp(&d.target), &z), &hash2(&z, &z)),
    );
    hash2(&l, domain)
}

impl<E: EthSpec> World<E> {
    /// A world in the fork schedule Deneb → Electra → Fulu with a random trusted and justified checkpoint.
    pub fn new(ctx: &mut Ctx) -> Self {
        let mut spec = E::default_spec();
        let f = 1 + ctx.t.below(40) + if ctx.t.chance(1, 8) { 400_000 } else { 0 };
        spec.config_name = Some("sim".into());
        spec.altair_fork_epoch = Some(Epoch::new(0));
        spec.bellatrix_fork_epoch = Some(Epoch::new(0));
        spec.capella_fork_epoch = Some(Epoch::new(0));
        spec.deneb_fork_epoch = Some(Epoch::new(0));
        let electra = *ctx.t.pick(&[0, 1]);
        spec.electra_fork_epoch = Some(Epoch::new(if electra == 0 { 0 } else { f.saturating_sub(1) }));
        spec.fulu_fork_epoch = match ctx.t.below(3) {
            0 => None,
            1 => Some(Epoch::new(f + ctx.t.below(6))),
            _ => Some(Epoch::new((f / 2).max(spec.electra_fork_epoch.unwrap().as_u64() + 1))),
        };
        spec.gloas_fork_epoch = None;
        spec.target_committee_size = *ctx.t.pick(&[4usize, 1, 2, 8, 128]);
        spec.max_committees_per_slot = E::max_committees_per_slot().min(spec.max_committees_per_slot);
        spec.shuffle_round_count = *ctx.t.pick(&[10u8, 90, 3]);
        let lookahead = 4 + ctx.t.below(3) * 4;
        let (a, b) = *ctx.t.pick(&[(2u64, 3u64), (70, 100), (85, 100), (999, 1000), (1, 1), (u64::MAX / 4, u64::MAX / 4 + 7)]);
        let cfg = config(&spec, lookahead, a, b);
        let j = f + 1 + ctx.t.below(if lookahead > 4 { 6 } else { 3 });
        let mut n = 24 + ctx.t.below(if ctx.thorough { 200 } else { 100 }) as usize;
        if ctx.t.chance(1, 200) {
            // as many committees as the preset allows, or committees of many members
            n = 2048 + (ctx.t.below(48) * ctx.t.below(48)) as usize;
            spec.target_committee_size = *ctx.t.pick(&[1usize, 4096]);
            ctx.count("large_registry");
        }
        let profile = Profile {
            n,
            equal: ctx.t.chance(1, 2),
            slashed: *ctx.t.pick(&[0u64, 5, 25]),
            leaving: *ctx.t.pick(&[0u64, 8, 20]),
            exited: *ctx.t.pick(&[0u64, 10, 30]),
            joining: *ctx.t.pick(&[0u64, 10, 25]),
            skipped_boundary: ctx.t.chance(1, 3),
        };
        let seed = ctx.t.raw();
        World { spec, cfg, gvr: sha(&seed.to_le_bytes()), f, j, seed, snaps: RefCell::default(), profile, _e: Default::default() }
    }
    pub fn with(spec: ChainSpec, cfg: Config, gvr: H, f: u64, j: u64, seed: u64, profile: Profile) -> Self {
        World { spec, cfg, gvr, f, j, seed, snaps: RefCell::default(), profile, _e: Default::default() }
    }
    pub fn rng(&self, what: u64, i: u64) -> Rng {
        Rng::new(self.seed ^ simkit::stable_hash(&(what, i)))
    }
    pub fn mix(&self, epoch: u64) -> H {
        sha(&[self.seed.to_le_bytes(), epoch.to_le_bytes()].concat())
    }
    pub fn mix_index(&self, target: u64) -> u32 {
        let n = E::epochs_per_historical_vector() as u64;
        ((target + n - 2) % n) as u32
    }
    pub fn seed_of(&self, target: u64, mix: &H) -> H {
        let mut b = vec![1, 0, 0, 0];
        b.extend_from_slice(&target.to_le_bytes());
        b.extend_from_slice(mix);
        sha(&b)
    }
    pub fn domain_at(&self, target: u64) -> H {
        domain(1, version_at(&self.spec, target), &self.gvr)
    }

    /// The block, state and registry at the checkpoint of `epoch`.
    pub fn snap(&self, epoch: u64) -> Rc<Snap> {
        if let Some(s) = self.snaps.borrow().get(&epoch) {
            return s.clone();
        }
        let mut r = self.rng(1, epoch);
        let p = &self.profile;
        let back = if p.skipped_boundary { r.below(spe::<E>() + 2).min(epoch * spe::<E>()) } else { 0 };
        let slot = epoch * spe::<E>() - back;
        let fin = epoch.saturating_sub(1 + r.below(4));
        let se = slot / spe::<E>();
        let n = p.n + r.below(4) as usize;
        let mut vals: Vec<Val> = vec![];
        for i in 0..n as u64 {
            let eff = if p.equal {
                32 * ETH
            } else {
                match r.below(8) {
                    0 => 2048 * ETH,
                    1 => (33 + r.below(200)) * ETH,
                    2 => (16 + r.below(16)) * ETH,
                    _ => 32 * ETH,
                }
            };
            let old = se.saturating_sub(r.below(20));
            let mut v = Val { key: i, eff, slashed: false, elig: old, act: old, exit: FAR };
            let x = r.below(100);
            if x < p.exited {
                v.exit = epoch.saturating_sub(r.below(6)).max(1);
                v.slashed = r.below(3) == 0;
                v.act = v.act.min(v.exit - 1);
            } else if x < p.exited + p.leaving {
                v.exit = epoch + 1 + r.below(9);
                v.slashed = r.below(4) == 0;
            } else if x < p.exited + p.leaving + p.joining {
                match r.below(4) {
                    0 => {
                        v.elig = se.saturating_sub(r.below(4));
                        v.act = se + 1 + r.below(5);
                    }
                    1 => {
                        // waiting for finality of its eligibility epoch
                        v.elig = (fin + r.below(4)).min(se + 1);
                        v.act = FAR;
                    }
                    2 => {
                        v.elig = FAR;
                        v.act = FAR;
                        v.eff = *[32 * ETH, 31 * ETH, 64 * ETH].get(r.idx(3)).unwrap();
                    }
                    _ => {
                        v.elig = se + 1;
                        v.act = FAR;
                    }
                }
            } else if r.below(100) < p.slashed {
                v.slashed = true;
                v.exit = if r.below(4) == 0 { FAR } else { epoch + 5 + r.below(20) };
            }
            vals.push(v);
        }
        let (ee, ec) = match r.below(3) {
            0 => (0, 0),
            1 => (epoch + r.below(8), epoch + r.below(8)),
            _ => (epoch + 5 + r.below(4), epoch + 5 + r.below(4)),
        };
        let s = Rc::new(self.build_snap(epoch, slot, fin, vals, ee, ec));
        self.snaps.borrow_mut().insert(epoch, s.clone());
        s
    }
    /// The earliest exit epoch the protocol can give out after a state.
    pub fn first_exit(&self, s: &Snap) -> u64 {
        s.earliest_exit.min(s.earliest_consolidation).max(s.slot / spe::<E>() + 5)
    }
    pub fn build_snap(&self, epoch: u64, slot: u64, fin: u64, vals: Vec<Val>, ee: u64, ec: u64) -> Snap {
        let trees: Vec<Node> = vals.iter().map(val_tree).collect();
        let list = Node::list(&trees, 40, vals.len() as u64);
        let mut r = self.rng(2, epoch);
        let mut leaves: Vec<Node> = (0..38).map(|_| Node::leaf(r.bytes())).collect();
        let se = slot / spe::<E>();
        let sched = schedule(&self.spec);
        let cur = sched.iter().rposition(|(e, _)| *e <= se).unwrap();
        let prev = if sched[cur].0 == 0 { cur } else { cur - 1 };
        let ver = |v: [u8; 4]| {
            let mut c = [0; 32];
            c[..4].copy_from_slice(&v);
            Node::leaf(c)
        };
        leaves[1] = Node::leaf(self.gvr);
        leaves[2] = Node::u64(slot);
        leaves[3] = Node::merkleize(&[ver(sched[prev].1), ver(sched[cur].1), Node::u64(sched[cur].0)], 2);
        leaves[11] = list.clone();
        leaves[20] = Node::branch(Node::u64(fin), Node::leaf(r.bytes()));
        leaves[31] = Node::u64(ee);
        leaves[33] = Node::u64(ec);
        let state = Node::merkleize(&leaves, 6);
        let header = Node::merkleize(
            &[Node::u64(slot), Node::u64(r.below(vals.len() as u64)), Node::leaf(r.bytes()), Node::leaf(state.root()), Node::leaf(r.bytes())],
            3,
        );
        Snap { epoch, slot, fin, vals, earliest_exit: ee, earliest_consolidation: ec, list, state, header }
    }
    pub fn cp(&self, epoch: u64) -> Checkpoint {
        Checkpoint::new(Epoch::new(epoch), self.snap(epoch).root())
    }
    pub fn pre(&self) -> ConsensusState {
        ConsensusState::new(self.cp(self.j), self.cp(self.f))
    }

    /// The registry as the chain has it once epoch `j` is processed, as the documents describe it.
    pub fn registry_at(&self, s: &Snap, j: u64) -> Vec<Val> {
        let mut vals = s.vals.clone();
        let se = s.slot / spe::<E>();
        for e in se..=j {
            let fin = if e < j { s.fin } else { s.epoch };
            for v in vals.iter_mut() {
                if v.elig == FAR && v.eff >= 32 * ETH {
                    v.elig = e + 1;
                }
                if v.elig <= fin && v.act == FAR {
                    v.act = e + 1 + 4;
                }
            }
        }
        vals
    }
    pub fn active(&self, vals: &[Val], patch: Option<&Patch>, t: u64) -> Vec<usize> {
        (0..vals.len())
            .filter(|i| {
                let v = &vals[*i];
                v.act <= t && t < v.exit && patch.and_then(|p| p.exits.get(i)).is_none_or(|x| t < *x)
            })
            .collect()
    }
    pub fn committees(&self, active: &[usize], seed: &H) -> Committees {
        let n = active.len();
        let slots = spe::<E>() as usize;
        let per_slot = (n / slots / self.spec.target_committee_size).min(self.spec.max_committees_per_slot).max(1);
        let shuffled: Vec<usize> = swap_or_not_shuffle::shuffle_list(active.to_vec(), self.spec.shuffle_round_count, seed, false).unwrap_or_default();
        let count = per_slot * slots;
        Committees(
            (0..slots)
                .map(|s| (0..per_slot).map(|c| s * per_slot + c).map(|k| shuffled[n * k / count..n * (k + 1) / count].to_vec()).collect())
                .collect(),
        )
    }
    pub fn honest_patch(&self, t: u64) -> Patch {
        Patch { mixes: [(self.mix_index(t), self.mix(t - t.min(2)))].into(), exits: BTreeMap::new() }
    }

    pub fn data(&self, slot: u64, head: u64, source: Checkpoint, target: Checkpoint) -> AttestationData {
        AttestationData {
            slot: slot.into(),
            index: 0,
            beacon_block_root: sha(&[self.seed.to_le_bytes(), slot.to_le_bytes(), head.to_le_bytes()].concat()).into(),
            source: source.into(),
            target: target.into(),
        }
    }
    pub fn sign(&self, d: &AttestationData, dom: &H, who: impl IntoIterator<Item = usize>, vals: &[Val]) -> AggregateSignature {
        let root: B256 = signing_root(d, dom).into();
        let mut s = AggregateSignature::infinity();
        for i in who {
            s.add_assign(&key(vals[i].key).sk.sign(root));
        }
        s
    }
}

pub fn config(spec: &ChainSpec, lookahead: u64, a: u64, b: u64) -> Config {
    let _ = spec;
    Config { epoch_lookahead_limit: Epoch::new(lookahead), justification_threshold_factor: a, justification_threshold_quotient: b, ..z_core::DEFAULT_CONFIG.clone() }
}

/// An Electra attestation by `voters` among the given committees of one slot.
pub fn aggregate<E: EthSpec>(data: AttestationData, committees: &[Vec<usize>], take: &[usize], voters: &BTreeSet<usize>, signature: AggregateSignature) -> Option<Attestation<E>> {
    let mut bits: Vec<bool> = vec![];
    let mut cb = BitVector::<E::MaxCommitteesPerSlot>::new();
    for &c in take {
        let m = &committees[c];
        if !m.iter().any(|v| voters.contains(v)) {
            continue;
        }
        cb.set(c, true).ok()?;
        bits.extend(m.iter().map(|v| voters.contains(v)));
    }
    if bits.is_empty() {
        return None;
    }
    let mut ab = BitList::<E::MaxValidatorsPerSlot>::with_capacity(bits.len()).ok()?;
    for (i, b) in bits.iter().enumerate() {
        ab.set(i, *b).ok()?;
    }
    Some(Attestation::Electra(AttestationElectra { aggregation_bits: ab, data, signature, committee_bits: cb }))
}

/// Votes of `voters` for one link, aggregated in a seed-dependent way; every signature is entered in the ledger.
#[allow(clippy::too_many_arguments)]
pub fn votes<E: EthSpec>(
    w: &World<E>,
    r: &mut Rng,
    vals: &[Val],
    com: &Committees,
    first_slot: u64,
    source: Checkpoint,
    target: Checkpoint,
    voters: &BTreeSet<usize>,
    ledger: &mut Vec<Signed>,
    twist: &dyn Fn(&mut AttestationData, &mut H),
) -> Vec<Attestation<E>> {
    let mut out = vec![];
    for (i, cs) in com.0.iter().enumerate() {
        let heads = if r.below(4) == 0 { 2 } else { 1 };
        for head in 0..heads {
            let mut d = w.data(first_slot + i as u64, head, source, target);
            let mut dom = w.domain_at(target.epoch().as_u64());
            twist(&mut d, &mut dom);
            let mine: BTreeSet<usize> =
                cs.iter().flatten().copied().filter(|v| voters.contains(v) && (heads == 1 || (*v as u64 + w.seed) % 2 == head)).collect();
            if mine.is_empty() {
                continue;
            }
            ledger.push(Signed { data: d, domain: dom, signers: mine.clone() });
            // partition of the committees into aggregates
            let mut parts: Vec<Vec<usize>> = vec![vec![]; 1 + r.idx(2)];
            for c in 0..cs.len() {
                let k = r.idx(parts.len());
                parts[k].push(c);
            }
            for take in parts {
                let in_part: BTreeSet<usize> = take.iter().flat_map(|c| cs[*c].iter().copied()).filter(|v| mine.contains(v)).collect();
                if in_part.is_empty() {
                    continue;
                }
                // sometimes two overlapping aggregates of the same committees
                let halves: Vec<BTreeSet<usize>> = if r.below(4) == 0 && in_part.len() > 2 {
                    let k = r.below(in_part.len() as u64);
                    let v: Vec<usize> = in_part.iter().copied().collect();
                    vec![v[..=k as usize].iter().copied().collect(), v[(k as usize / 2)..].iter().copied().collect()]
                } else {
                    vec![in_part]
                };
                for h in halves {
                    let sig = w.sign(&d, &dom, h.iter().copied(), vals);
                    out.extend(aggregate::<E>(d, cs, &take, &h, sig));
                }
            }
        }
    }
    out
}

/// A pre-Electra attestation with the same content.
pub fn to_base<E: EthSpec>(a: &Attestation<E>) -> Option<Attestation<E>> {
    let e = a.as_electra().ok()?;
    let n = e.aggregation_bits.len();
    let mut b = BitList::<E::MaxValidatorsPerCommittee>::with_capacity(n).ok()?;
    for i in 0..n {
        b.set(i, e.aggregation_bits.get(i).ok()?).ok()?;
    }
    Some(Attestation::Base(AttestationBase { aggregation_bits: b, data: e.data, signature: e.signature.clone() }))
}

/// A not yet serialized input, all parts of which an adversary can change.
#[derive(Clone)]
pub struct Draft<E: EthSpec> {
    pub block: Wire,
    pub state: Wire,
    pub vals: Wire,
    pub keys: Vec<PublicKey>,
    pub patches: BTreeMap<u64, Patch>,
    /// justified and finalized
    pub cs: (Checkpoint, Checkpoint),
    pub atts: Vec<Attestation<E>>,
    pub slots: Vec<Wire>,
}

/// Positions proven for each validator, in tree order.
pub fn val_gindices(i: usize, exited: bool) -> Vec<u64> {
    let b = BASE + i as u64;
    if exited {
        vec![b * 8 + 6]
    } else {
        vec![b * 16, b * 16 + 1, b * 8 + 2, b * 8 + 3, b * 8 + 4, b * 8 + 5, b * 8 + 6]
    }
}
pub fn vals_wire(list: &Node, forms: &[bool]) -> Wire {
    let mut g: Vec<u64> = forms.iter().enumerate().flat_map(|(i, x)| val_gindices(i, *x)).collect();
    g.push(3);
    prove_many(list, &g)
}
/// As `prove`, for long sorted requests.
pub fn prove_many(t: &Node, g: &[u64]) -> Wire {
    prove(t, g)
}

impl<E: EthSpec> World<E> {
    pub fn witness(&self, s: &Snap, atts: Vec<Attestation<E>>, patches: BTreeMap<u64, Patch>, slots: &[u64]) -> Draft<E> {
        let forms: Vec<bool> = s.vals.iter().map(|v| v.exit <= s.epoch).collect();
        Draft {
            block: prove(&s.header, &[11]),
            state: prove(&s.state, &STATE_GINDICES),
            vals: vals_wire(&s.list, &forms),
            keys: s.vals.iter().zip(&forms).filter(|(_, x)| !**x).map(|(v, _)| key(v.key).pk.clone()).collect(),
            patches,
            cs: (self.cp(self.j), self.cp(self.f)),
            atts,
            slots: slots.iter().map(|e| prove(&self.snap(*e).header, &[8])).collect(),
        }
    }
}

pub fn consensus_state(j: Checkpoint, f: Checkpoint) -> ConsensusState {
    // also states that the constructor refuses
    let mut v = serde_json::to_value(ConsensusState::default()).unwrap();
    v["current_justified_checkpoint"] = serde_json::to_value(j).unwrap();
    v["finalized_checkpoint"] = serde_json::to_value(f).unwrap();
    serde_json::from_value(v).unwrap()
}

pub fn state_patch(p: &Patch) -> StatePatch {
    StatePatch {
        randao_mixes: p.mixes.iter().map(|(i, m)| (*i, B256::from(*m))).collect(),
        validator_exits: p.exits.iter().map(|(i, x)| (*i, Epoch::new(*x))).collect(),
    }
}

impl<E: EthSpec> Draft<E> {
    /// Serialized as the host would send it.
    pub fn encode(&self) -> Result<Vec<u8>, String> {
        let b = self.block.encode(Codec::Bincode);
        let s = self.state.encode(Codec::Bincode);
        let v = self.vals.encode(Codec::Bincode);
        let sl: Vec<Vec<u8>> = self.slots.iter().map(|w| w.encode(Codec::Bincode)).collect();
        catch(|| {
            fn mp(b: &[u8]) -> Result<Multiproof<'_>, String> {
                bincode::deserialize(b).map_err(|e| e.to_string())
            }
            let input = GuestInput::<E> {
                beacon_block: mp(&b)?,
                beacon_state: mp(&s)?,
                active_validators: mp(&v)?,
                public_keys: self.keys.clone(),
                patches: self.patches.iter().map(|(e, p)| (Epoch::new(*e), state_patch(p))).collect(),
                consensus_state: consensus_state(self.cs.0, self.cs.1),
                attestations: self.atts.clone(),
                block_slot_proofs: sl.iter().map(|b| mp(b)).collect::<Result<_, _>>()?,
            };
            bincode::serialize(&input).map_err(|e| e.to_string())
        })?
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Facts {
    pub gvr: B256,
    pub active: BTreeMap<u64, Vec<(usize, ValidatorInfo)>>,
    pub seeds: BTreeMap<u64, Option<B256>>,
    pub pre: ConsensusState,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    /// The input was refused; `at` says by which stage.
    Reject { at: &'static str, why: String },
    Accept { post: ConsensusState, slot: u64 },
}
impl Outcome {
    pub fn accepted(&self) -> bool {
        matches!(self, Outcome::Accept { .. })
    }
}

pub fn facts<R: InputReader>(r: &R, epochs: &BTreeSet<u64>) -> Facts {
    Facts {
        gvr: r.genesis_validators_root().unwrap(),
        active: epochs
            .iter()
            .map(|e| (*e, r.active_validators(Epoch::new(*e)).unwrap().map(|(i, v)| (i, v.clone())).collect()))
            .collect(),
        seeds: epochs.iter().map(|e| (*e, catch(|| r.get_seed(Epoch::new(*e), [1, 0, 0, 0].into()).ok()).ok().flatten())).collect(),
        pre: r.consensus_state().unwrap(),
    }
}

/// Delivers bytes to the verifier (the same steps the guest takes).
pub fn deliver<E: EthSpec>(bytes: &[u8], spec: &ChainSpec, cfg: &Config, epochs: &BTreeSet<u64>) -> (Outcome, Option<Facts>) {
    let rej = |at, why: String| Outcome::Reject { at, why };
    let input: GuestInput<E> = match catch(|| bincode::deserialize::<GuestInput<E>>(bytes)) {
        Ok(Ok(i)) => i,
        Ok(Err(e)) => return (rej("decode", e.to_string()), None),
        Err(p) => return (rej("decode", p), None),
    };
    let reader = match catch(|| input.into_reader(spec.clone())) {
        Ok(Ok(r)) => r,
        Ok(Err(e)) => return (rej("witness", e.to_string()), None),
        Err(p) => return (rej("witness", p), None),
    };
    let fx = catch(|| facts(&reader, epochs)).ok();
    let o = match catch(|| z_core::verify(cfg, &reader)) {
        Ok(Ok((post, slot))) => Outcome::Accept { post, slot },
        Ok(Err(e)) => rej("verify", e.to_string()),
        Err(p) => rej("verify", p),
    };
    (o, fx)
}
