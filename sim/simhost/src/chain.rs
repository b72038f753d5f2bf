//! An independent beacon chain: blocks with votes, epoch processing, and full states with their
//! trees and JSON forms. Written from the consensus specification; nothing of the code under test
//! is used here. `block_roots`, `state_roots` and participation flags are left empty in the states
//! (participation is kept as sets), which nothing under test reads.
use beacon_types::AttestationData;
use bls::AggregateSignature;
use simcore::world::{credentials, domain, key, schedule, signing_root, val_tree, Val, ETH, FAR};
use simkit::{Ctx, Rng};
use simtree::{pack, sha, Node, H};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write;
use std::sync::{Arc, OnceLock};
use z_core::{ChainSpec, Epoch};

pub const SPE: u64 = 32;
const MIXES: u64 = 65536;
pub type Cp = (u64, H);

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(2 + b.len() * 2);
    s.push_str("0x");
    for x in b {
        let _ = write!(s, "{x:02x}");
    }
    s
}

#[derive(Clone)]
pub struct Registry {
    pub vals: Vec<Val>,
    pub bal: Vec<u64>,
    pub tree: Node,
    pub bal_tree: Node,
    json: OnceLock<String>,
    bal_json: OnceLock<String>,
}
impl Registry {
    pub fn new(vals: Vec<Val>, bal: Vec<u64>) -> Self {
        let trees: Vec<Node> = vals.iter().map(val_tree).collect();
        let tree = Node::list(&trees, 40, vals.len() as u64);
        let bytes: Vec<u8> = bal.iter().flat_map(|b| b.to_le_bytes()).collect();
        let bal_tree = Node::list(&pack(&bytes), 38, bal.len() as u64);
        Registry { vals, bal, tree, bal_tree, json: OnceLock::new(), bal_json: OnceLock::new() }
    }
    fn json(&self) -> &str {
        self.json.get_or_init(|| {
            let mut s = String::from("[");
            for (i, v) in self.vals.iter().enumerate() {
                let pk = key(v.key).pk.serialize();
                let w = if v.exit == FAR { FAR } else { v.exit + if v.slashed { 8187 } else { 256 } };
                let _ = write!(
                    s,
                    r#"{}{{"pubkey":"{}","withdrawal_credentials":"{}","effective_balance":"{}","slashed":{},"activation_eligibility_epoch":"{}","activation_epoch":"{}","exit_epoch":"{}","withdrawable_epoch":"{}"}}"#,
                    if i > 0 { "," } else { "" },
                    hex(&pk),
                    hex(&credentials(v.key)),
                    v.eff,
                    v.slashed,
                    v.elig,
                    v.act,
                    v.exit,
                    w
                );
            }
            s.push(']');
            s
        })
    }
    fn bal_json(&self) -> &str {
        self.bal_json.get_or_init(|| {
            let v: Vec<String> = self.bal.iter().map(|b| format!("\"{b}\"")).collect();
            format!("[{}]", v.join(","))
        })
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Header {
    pub slot: u64,
    pub proposer: u64,
    pub parent: H,
    pub state_root: H,
    pub body_root: H,
}
impl Header {
    pub fn tree(&self) -> Node {
        Node::merkleize(&[Node::u64(self.slot), Node::u64(self.proposer), Node::leaf(self.parent), Node::leaf(self.state_root), Node::leaf(self.body_root)], 3)
    }
    pub fn json(&self) -> String {
        format!(
            r#"{{"slot":"{}","proposer_index":"{}","parent_root":"{}","state_root":"{}","body_root":"{}"}}"#,
            self.slot,
            self.proposer,
            hex(&self.parent),
            hex(&self.state_root),
            hex(&self.body_root)
        )
    }
}

#[derive(Clone)]
pub struct State {
    pub slot: u64,
    pub gvr: H,
    pub genesis_time: u64,
    pub fork: ([u8; 4], [u8; 4], u64),
    pub fulu: bool,
    pub header: Header,
    pub reg: Arc<Registry>,
    pub mixes: Arc<BTreeMap<u64, H>>,
    mix_tree: Node,
    pub bits: [bool; 4],
    pub pj: Cp,
    pub cj: Cp,
    pub fin: Cp,
    pub exit_left: u64,
    pub earliest_exit: u64,
    pub cons_left: u64,
    pub earliest_cons: u64,
    pub lookahead: [u64; 64],
    /// validators that voted for the right target, previous and current epoch
    pub voted: [Arc<BTreeSet<usize>>; 2],
    root: Option<H>,
}

fn cp_tree(c: &Cp) -> Node {
    Node::branch(Node::u64(c.0), Node::leaf(c.1))
}
fn cp_json(c: &Cp) -> String {
    format!(r#"{{"epoch":"{}","root":"{}"}}"#, c.0, hex(&c.1))
}
fn version(v: [u8; 4]) -> Node {
    let mut c = [0; 32];
    c[..4].copy_from_slice(&v);
    Node::leaf(c)
}
fn payload_nodes(withdrawals: bool) -> Vec<Node> {
    let z = Node::Zero;
    let list = |d: u32| Node::branch(z(d), z(0));
    vec![z(0), z(0), z(0), z(0), z(3), z(0), z(0), z(0), z(0), z(0), list(0), z(0), z(0), if withdrawals { list(20) } else { z(0) }, if withdrawals { list(4) } else { z(0) }, z(0), z(0)]
}

impl State {
    pub fn epoch(&self) -> u64 {
        self.slot / SPE
    }
    pub fn mix(&self, epoch: u64) -> H {
        self.mixes.get(&(epoch % MIXES)).copied().unwrap_or_default()
    }
    fn set_mix(&mut self, epoch: u64, h: H) {
        let i = epoch % MIXES;
        Arc::make_mut(&mut self.mixes).insert(i, h);
        self.mix_tree = self.mix_tree.with(MIXES + i, Node::leaf(h));
        self.root = None;
    }
    pub fn tree(&self) -> Node {
        let z = Node::Zero;
        let list = |d: u32| Node::branch(z(d), z(0));
        let sync = || Node::branch(z(10), z(1));
        let bits = self.bits.iter().enumerate().fold(0u64, |a, (i, b)| a | (*b as u64) << i);
        let mut l = vec![
            Node::u64(self.genesis_time),
            Node::leaf(self.gvr),
            Node::u64(self.slot),
            Node::merkleize(&[version(self.fork.0), version(self.fork.1), Node::u64(self.fork.2)], 2),
            self.header.tree(),
            z(13),
            z(13),
            list(24),
            z(2),
            list(11),
            z(0),
            self.reg.tree.clone(),
            self.reg.bal_tree.clone(),
            self.mix_tree.clone(),
            z(11),
            list(35),
            list(35),
            Node::u64(bits),
            cp_tree(&self.pj),
            cp_tree(&self.cj),
            cp_tree(&self.fin),
            list(38),
            sync(),
            sync(),
            Node::merkleize(&payload_nodes(false), 5),
            z(0),
            z(0),
            list(24),
            z(0),
            z(0),
            Node::u64(self.exit_left),
            Node::u64(self.earliest_exit),
            Node::u64(self.cons_left),
            Node::u64(self.earliest_cons),
            list(27),
            list(27),
            list(18),
        ];
        if self.fulu {
            let b: Vec<u8> = self.lookahead.iter().flat_map(|b| b.to_le_bytes()).collect();
            l.push(Node::merkleize(&pack(&b), 4));
        }
        Node::merkleize(&l, 6)
    }
    pub fn root(&mut self) -> H {
        if self.root.is_none() {
            self.root = Some(self.tree().root());
        }
        self.root.unwrap()
    }
    pub fn root_of(&self) -> H {
        self.root.unwrap_or_else(|| self.tree().root())
    }
    pub fn version(&self) -> &'static str {
        if self.fulu {
            "fulu"
        } else {
            "electra"
        }
    }
    pub fn json(&self) -> String {
        let mixes: Vec<String> = self.mixes.iter().filter(|(_, h)| **h != [0; 32]).map(|(i, h)| format!("[{i},\"{}\"]", hex(h))).collect();
        let bits = self.bits.iter().enumerate().fold(0u8, |a, (i, b)| a | (*b as u8) << i);
        let sync = format!(r#"{{"pubkeys":[],"aggregate_pubkey":"{}"}}"#, hex(&[0; 48]));
        let zero = hex(&[0; 32]);
        let mut s = format!(
            concat!(
                r#"{{"genesis_time":"{}","genesis_validators_root":"{}","slot":"{}","fork":{{"previous_version":"{}","current_version":"{}","epoch":"{}"}},"#,
                r#""latest_block_header":{},"block_roots":[],"state_roots":[],"historical_roots":[],"#,
                r#""eth1_data":{{"deposit_root":"{z}","deposit_count":"0","block_hash":"{z}"}},"eth1_data_votes":[],"eth1_deposit_index":"0","#,
                r#""validators":{},"balances":{},"randao_mixes":[{}],"slashings":[],"previous_epoch_participation":[],"current_epoch_participation":[],"#,
                r#""justification_bits":"{}","previous_justified_checkpoint":{},"current_justified_checkpoint":{},"finalized_checkpoint":{},"inactivity_scores":[],"#,
                r#""current_sync_committee":{sync},"next_sync_committee":{sync},"latest_execution_payload_header":{},"#,
                r#""next_withdrawal_index":"0","next_withdrawal_validator_index":"0","historical_summaries":[],"deposit_requests_start_index":"0","#,
                r#""deposit_balance_to_consume":"0","exit_balance_to_consume":"{}","earliest_exit_epoch":"{}","consolidation_balance_to_consume":"{}","#,
                r#""earliest_consolidation_epoch":"{}","pending_deposits":[],"pending_partial_withdrawals":[],"pending_consolidations":[]"#
            ),
            self.genesis_time,
            hex(&self.gvr),
            self.slot,
            hex(&self.fork.0),
            hex(&self.fork.1),
            self.fork.2,
            self.header.json(),
            self.reg.json(),
            self.reg.bal_json(),
            mixes.join(","),
            hex(&[bits]),
            cp_json(&self.pj),
            cp_json(&self.cj),
            cp_json(&self.fin),
            payload_json(false),
            self.exit_left,
            self.earliest_exit,
            self.cons_left,
            self.earliest_cons,
            z = zero,
            sync = sync,
        );
        if self.fulu {
            let v: Vec<String> = self.lookahead.iter().map(|x| format!("\"{x}\"")).collect();
            let _ = write!(s, r#","proposer_lookahead":[{}]"#, v.join(","));
        }
        s.push('}');
        s
    }
    pub fn active(&self, epoch: u64) -> Vec<usize> {
        (0..self.reg.vals.len()).filter(|i| self.reg.vals[*i].act <= epoch && epoch < self.reg.vals[*i].exit).collect()
    }
    pub fn finality_json(&self) -> String {
        format!(
            r#"{{"execution_optimistic":false,"finalized":true,"data":{{"previous_justified":{},"current_justified":{},"finalized":{}}}}}"#,
            cp_json(&self.pj),
            cp_json(&self.cj),
            cp_json(&self.fin)
        )
    }
    pub fn state_json(&self) -> String {
        format!(r#"{{"version":"{}","execution_optimistic":false,"finalized":true,"data":{}}}"#, self.version(), self.json())
    }
}

fn payload_json(block: bool) -> String {
    let z = hex(&[0; 32]);
    format!(
        r#"{{"parent_hash":"{z}","fee_recipient":"{}","state_root":"{z}","receipts_root":"{z}","logs_bloom":"{}","prev_randao":"{z}","block_number":"0","gas_limit":"0","gas_used":"0","timestamp":"0","extra_data":"0x","base_fee_per_gas":"0","block_hash":"{z}",{},"blob_gas_used":"0","excess_blob_gas":"0"}}"#,
        hex(&[0; 20]),
        hex(&[0; 256]),
        if block { r#""transactions":[],"withdrawals":[]"#.to_string() } else { format!(r#""transactions_root":"{z}","withdrawals_root":"{z}""#) }
    )
}

/// An aggregate included in a block.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Att {
    pub data: AttestationData,
    pub bits: Vec<bool>,
    pub committees: u64,
    pub sig: [u8; 96],
    pub voters: BTreeSet<usize>,
}
impl Att {
    pub fn src(&self) -> Cp {
        (self.data.source.epoch.as_u64(), self.data.source.root.0)
    }
    pub fn tgt(&self) -> Cp {
        (self.data.target.epoch.as_u64(), self.data.target.root.0)
    }
    /// The vote as the verifier gets it.
    pub fn plain(&self) -> z_core::Attestation<z_core::MainnetEthSpec> {
        let mut ab = ssz_types::BitList::with_capacity(self.bits.len()).unwrap();
        for (i, b) in self.bits.iter().enumerate() {
            ab.set(i, *b).unwrap();
        }
        let mut cb = ssz_types::BitVector::new();
        for i in 0..64 {
            cb.set(i, self.committees >> i & 1 == 1).unwrap();
        }
        z_core::Attestation::Electra(beacon_types::AttestationElectra {
            aggregation_bits: ab,
            data: self.data.clone(),
            signature: AggregateSignature::deserialize(&self.sig).unwrap(),
            committee_bits: cb,
        })
    }
    fn bit_bytes(&self) -> Vec<u8> {
        let mut b = vec![0u8; self.bits.len() / 8 + 1];
        for (i, x) in self.bits.iter().enumerate() {
            b[i / 8] |= (*x as u8) << (i % 8);
        }
        b[self.bits.len() / 8] |= 1 << (self.bits.len() % 8);
        b
    }
    fn tree(&self) -> Node {
        let mut raw = vec![0u8; self.bits.len().div_ceil(8)];
        for (i, x) in self.bits.iter().enumerate() {
            raw[i / 8] |= (*x as u8) << (i % 8);
        }
        let bits = Node::list(&pack(&raw), 9, self.bits.len() as u64);
        let d = &self.data;
        let data = Node::merkleize(
            &[Node::u64(d.slot.as_u64()), Node::u64(d.index), Node::leaf(d.beacon_block_root.0), cp_tree(&self.src()), cp_tree(&self.tgt())],
            3,
        );
        Node::merkleize(&[bits, data, Node::merkleize(&pack(&self.sig), 2), Node::u64(self.committees)], 2)
    }
    fn json(&self) -> String {
        let d = &self.data;
        format!(
            r#"{{"aggregation_bits":"{}","data":{{"slot":"{}","index":"{}","beacon_block_root":"{}","source":{},"target":{}}},"signature":"{}","committee_bits":"{}"}}"#,
            hex(&self.bit_bytes()),
            d.slot.as_u64(),
            d.index,
            hex(&d.beacon_block_root.0),
            cp_json(&self.src()),
            cp_json(&self.tgt()),
            hex(&self.sig),
            hex(&self.committees.to_le_bytes())
        )
    }
}

#[derive(Clone)]
pub struct Block {
    pub header: Header,
    pub root: H,
    pub reveal: [u8; 96],
    pub graffiti: H,
    pub atts: Vec<Arc<Att>>,
}
impl Block {
    fn body_root(reveal: &[u8; 96], graffiti: H, atts: &[Arc<Att>]) -> H {
        let z = Node::Zero;
        let list = |d: u32| Node::branch(z(d), z(0));
        let a: Vec<Node> = atts.iter().map(|a| a.tree()).collect();
        Node::merkleize(
            &[
                Node::merkleize(&pack(reveal), 2),
                z(2),
                Node::leaf(graffiti),
                list(4),
                list(0),
                Node::list(&a, 3, a.len() as u64),
                list(4),
                list(4),
                Node::branch(z(1), z(2)),
                Node::merkleize(&payload_nodes(true), 5),
                list(4),
                list(12),
                Node::merkleize(&[list(13), list(4), list(1)], 2),
            ],
            4,
        )
        .root()
    }
    pub fn json(&self) -> String {
        let z = hex(&[0; 32]);
        let atts: Vec<String> = self.atts.iter().map(|a| a.json()).collect();
        format!(
            concat!(
                r#"{{"slot":"{}","proposer_index":"{}","parent_root":"{}","state_root":"{}","body":{{"randao_reveal":"{}","#,
                r#""eth1_data":{{"deposit_root":"{z}","deposit_count":"0","block_hash":"{z}"}},"graffiti":"{}","proposer_slashings":[],"attester_slashings":[],"#,
                r#""attestations":[{}],"deposits":[],"voluntary_exits":[],"sync_aggregate":{{"sync_committee_bits":"{}","sync_committee_signature":"{}"}},"#,
                r#""execution_payload":{},"bls_to_execution_changes":[],"blob_kzg_commitments":[],"execution_requests":{{"deposits":[],"withdrawals":[],"consolidations":[]}}}}}}"#
            ),
            self.header.slot,
            self.header.proposer,
            hex(&self.header.parent),
            hex(&self.header.state_root),
            hex(&self.reveal),
            hex(&self.graffiti),
            atts.join(","),
            hex(&[0; 64]),
            hex(&[0; 96]),
            payload_json(true),
            z = z,
        )
    }
    pub fn block_json(&self, version: &str) -> String {
        format!(r#"{{"version":"{version}","execution_optimistic":false,"finalized":true,"data":{{"message":{},"signature":"{}"}}}}"#, self.json(), hex(&[0; 96]))
    }
    pub fn header_json(&self) -> String {
        format!(
            r#"{{"execution_optimistic":false,"finalized":true,"data":{{"root":"{}","canonical":true,"header":{{"message":{},"signature":"{}"}}}}}}"#,
            hex(&self.root),
            self.header.json(),
            hex(&[0; 96])
        )
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Mode {
    /// nearly everybody votes in time
    Full,
    /// enough for the chain, around the verifier's threshold
    Tight,
    /// justified only with votes of the following epoch
    Late,
    /// not justified
    Weak,
}

#[derive(Clone, Debug)]
pub struct Profile {
    pub n: usize,
    pub base: u64,
    pub epochs: u64,
    pub equal: bool,
    /// chances in percent
    pub slashed: u64,
    pub leaving: u64,
    pub exited: u64,
    pub joining: u64,
    pub low: u64,
    pub skip: u64,
    pub ops: u64,
    pub drift: u64,
    /// new validators appear
    pub deposits: bool,
    pub modes: Vec<Mode>,
    /// the block at the first slot of these epochs is missing (how many slots before it too)
    pub boundary: Vec<Option<u64>>,
    /// no block from the one slot (after the first) up to before the other
    pub outage: (u64, u64),
}
impl Profile {
    pub fn draw(ctx: &mut Ctx, base: u64, lively: bool) -> Self {
        let epochs = 6 + ctx.t.below(if ctx.thorough { 10 } else { 6 });
        let n = 33 + ctx.t.below(if ctx.thorough { 160 } else { 80 }) as usize;
        let pct = |ctx: &mut Ctx, x: &[u64]| *ctx.t.pick(x);
        let mut p = Profile {
            n,
            base,
            epochs,
            equal: !ctx.t.chance(1, 3),
            slashed: pct(ctx, &[0, 3, 8]),
            leaving: pct(ctx, &[0, 4, 8]),
            exited: pct(ctx, &[0, 5, 15]),
            joining: pct(ctx, &[0, 4, 10]),
            low: 0,
            skip: pct(ctx, &[0, 5, 20, 40]),
            ops: if lively { pct(ctx, &[0, 10, 30]) } else { 0 },
            drift: if lively { pct(ctx, &[0, 0, 3]) } else { 0 },
            deposits: true,
            modes: vec![],
            boundary: vec![],
            outage: (0, 0),
        };
        if lively && ctx.t.chance(1, 6) {
            p.low = 5;
        }
        let weak = pct(ctx, &[0, 10, 25]);
        let late = pct(ctx, &[0, 15, 30]);
        let tight = pct(ctx, &[0, 15, 40]);
        let gap = pct(ctx, &[0, 20, 40]);
        for _ in 0..epochs + 1 {
            let x = ctx.t.below(100);
            // zero is the simplest
            p.modes.push(if x >= 100 - weak {
                Mode::Weak
            } else if x >= 100 - weak - late {
                Mode::Late
            } else if x >= 100 - weak - late - tight {
                Mode::Tight
            } else {
                Mode::Full
            });
            let g = ctx.t.chance(gap, 100);
            p.boundary.push(if g { Some(ctx.t.below(4) * ctx.t.below(6)) } else { None });
        }
        if ctx.t.chance(1, 10) {
            // an outage of more than an epoch; often a start slot just before or after it has its block
            let from = (2 + ctx.t.below(epochs - 2)) * SPE + *ctx.t.pick(&[1, 0, SPE / 2, SPE - 1]);
            let len = SPE + *ctx.t.pick(&[0, SPE - 1, 1, SPE + 1]) + ctx.t.below(8);
            p.outage = (from, from + len);
            p.epochs += 3;
            p.modes.extend([Mode::Full; 3]);
            p.boundary.extend([None; 3]);
        }
        p
    }
    /// A longer chain with a run of epochs without justification.
    pub fn stretch(&mut self, ctx: &mut Ctx) {
        let more = 4 + ctx.t.below(6);
        let from = 3 + ctx.t.idx(3);
        let len = 3 + ctx.t.idx(5);
        self.epochs += more;
        for _ in 0..more {
            self.modes.push(Mode::Full);
            self.boundary.push(None);
        }
        for m in self.modes.iter_mut().skip(from).take(len) {
            *m = Mode::Weak;
        }
    }
}

pub struct Slot {
    pub block: Option<Arc<Block>>,
    pub state: Arc<State>,
}

pub struct Chain {
    pub spec: ChainSpec,
    pub profile: Profile,
    pub gvr: H,
    pub seed: u64,
    pub slots: Vec<Slot>,
    pub by_root: BTreeMap<H, u64>,
    pub genesis: String,
    pub events: BTreeMap<&'static str, u64>,
    /// committees per epoch
    pub committees: BTreeMap<u64, Vec<Vec<Vec<usize>>>>,
}

/// What must happen when following the chain from one of its finalized checkpoints.
#[derive(Clone, Debug)]
pub struct Plan {
    pub f: Cp,
    pub j: Cp,
    pub links: Vec<(Cp, Cp)>,
    pub post: (Cp, Cp),
    pub slot: u64,
    /// epoch in whose first state the new finality shows
    pub seen: u64,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum NoPlan {
    NotYet,
    OutOfScope(&'static str),
}

pub fn committees(spec: &ChainSpec, active: &[usize], seed: &H) -> Vec<Vec<Vec<usize>>> {
    let n = active.len();
    let slots = SPE as usize;
    let per_slot = (n / slots / spec.target_committee_size).min(spec.max_committees_per_slot).max(1);
    let shuffled: Vec<usize> = swap_or_not_shuffle::shuffle_list(active.to_vec(), spec.shuffle_round_count, seed, false).unwrap_or_default();
    let count = per_slot * slots;
    (0..slots).map(|s| (0..per_slot).map(|c| s * per_slot + c).map(|k| shuffled[n * k / count..n * (k + 1) / count].to_vec()).collect()).collect()
}

pub fn seed_for(st: &State, epoch: u64) -> H {
    let mix = st.mix(epoch + MIXES - 2);
    let mut b = vec![1, 0, 0, 0];
    b.extend_from_slice(&epoch.to_le_bytes());
    b.extend_from_slice(&mix);
    sha(&b)
}

fn total(st: &State, who: impl Iterator<Item = usize>) -> u64 {
    who.map(|i| st.reg.vals[i].eff).sum::<u64>().max(ETH)
}

struct Builder {
    spec: ChainSpec,
    p: Profile,
    st: State,
    r: Rng,
    slots: Vec<Slot>,
    by_root: BTreeMap<H, u64>,
    head: H,
    pool: Vec<(u64, Arc<Att>)>,
    com: BTreeMap<u64, Vec<Vec<Vec<usize>>>>,
    events: BTreeMap<&'static str, u64>,
    next_key: u64,
    seed: u64,
}

impl Builder {
    fn event(&mut self, k: &'static str) {
        *self.events.entry(k).or_default() += 1;
    }
    /// Latest block at or before a slot, as its root.
    fn root_at(&self, slot: u64) -> H {
        let b = self.p.base * SPE;
        let mut i = slot - b;
        loop {
            if let Some(b) = &self.slots[i as usize].block {
                return b.root;
            }
            i -= 1;
        }
    }
    fn churn(&self) -> u64 {
        let e = self.st.epoch();
        let t = total(&self.st, self.st.active(e).into_iter());
        let c = self.spec.min_per_epoch_churn_limit_electra.max(t / self.spec.churn_limit_quotient);
        c - c % ETH
    }
    fn exit_churn(&self) -> u64 {
        self.spec.max_per_epoch_activation_exit_churn_limit.min(self.churn())
    }
    fn queue(earliest: u64, left: u64, balance: u64, churn: u64, now: u64) -> (u64, u64) {
        let mut e = earliest.max(now + 5);
        let mut left = if earliest < e { churn } else { left };
        if balance > left {
            let more = (balance - left - 1) / churn + 1;
            e += more;
            left += more * churn;
        }
        (e, left - balance)
    }
    fn edit(&mut self, f: impl FnOnce(&mut Vec<Val>, &mut Vec<u64>)) {
        let mut v = self.st.reg.vals.clone();
        let mut b = self.st.reg.bal.clone();
        f(&mut v, &mut b);
        self.st.reg = Arc::new(Registry::new(v, b));
        self.st.root = None;
    }
    fn exit(&mut self, i: usize) {
        if self.st.reg.vals[i].exit != FAR {
            return;
        }
        let now = self.st.epoch();
        let (e, left) = Self::queue(self.st.earliest_exit, self.st.exit_left, self.st.reg.vals[i].eff, self.exit_churn(), now);
        self.st.earliest_exit = e;
        self.st.exit_left = left;
        self.edit(|v, _| v[i].exit = e);
        self.event("exit");
    }
    fn consolidate(&mut self, i: usize) {
        let churn = self.churn().saturating_sub(self.exit_churn());
        if self.st.reg.vals[i].exit != FAR || churn < 32 * ETH {
            return;
        }
        let now = self.st.epoch();
        let (e, left) = Self::queue(self.st.earliest_cons, self.st.cons_left, self.st.reg.vals[i].eff, churn, now);
        self.st.earliest_cons = e;
        self.st.cons_left = left;
        self.edit(|v, _| v[i].exit = e);
        self.event("consolidation");
    }
    fn slash(&mut self, i: usize) {
        if self.st.reg.vals[i].slashed {
            return;
        }
        self.exit(i);
        self.edit(|v, _| v[i].slashed = true);
        self.event("slashing");
    }
    /// At the end of the epoch `self.st` is in (its slot is the last one of the epoch).
    fn end_of_epoch(&mut self) {
        let e = self.st.epoch();
        let old_fin = self.st.fin;
        if e > 1 {
            let unslashed = |st: &State, k: usize, ep: u64| {
                total(st, st.voted[k].iter().copied().filter(|i| !st.reg.vals[*i].slashed && st.reg.vals[*i].act <= ep && ep < st.reg.vals[*i].exit))
            };
            let all = total(&self.st, self.st.active(e).into_iter());
            let prev = unslashed(&self.st, 0, e - 1);
            let cur = unslashed(&self.st, 1, e);
            let (opj, ocj) = (self.st.pj, self.st.cj);
            let b = self.st.bits;
            let mut bits = [false, b[0], b[1], b[2]];
            self.st.pj = ocj;
            let can_prev = e > self.p.base; // the votes of epochs before the simulated part are unknown
            if can_prev && prev as u128 * 3 >= all as u128 * 2 {
                self.st.cj = (e - 1, self.root_at((e - 1) * SPE));
                bits[1] = true;
            }
            if cur as u128 * 3 >= all as u128 * 2 {
                self.st.cj = (e, self.root_at(e * SPE));
                bits[0] = true;
            }
            if bits[1] && bits[2] && bits[3] && opj.0 + 3 == e {
                self.st.fin = opj;
            }
            if bits[1] && bits[2] && opj.0 + 2 == e {
                self.st.fin = opj;
            }
            if bits[0] && bits[1] && bits[2] && ocj.0 + 2 == e {
                self.st.fin = ocj;
            }
            if bits[0] && bits[1] && ocj.0 + 1 == e {
                self.st.fin = ocj;
            }
            self.st.bits = bits;
        }
        if self.st.fin != old_fin {
            self.event("finalized");
        }
        // registry updates
        let n = self.st.reg.vals.len();
        for i in 0..n {
            let v = self.st.reg.vals[i].clone();
            if v.elig == FAR && v.eff >= 32 * ETH {
                self.edit(|v, _| v[i].elig = e + 1);
            } else if v.act <= e && e < v.exit && v.eff <= 16 * ETH {
                if v.exit == FAR {
                    self.event("ejection");
                }
                self.exit(i);
            } else if v.elig <= self.st.fin.0 && v.act == FAR {
                self.edit(|v, _| v[i].act = e + 5);
                self.event("activation");
            }
        }
        // deposits of new validators
        if self.p.deposits && self.r.below(100) < self.p.ops && self.r.below(2) == 0 {
            let k = self.next_key;
            self.next_key += 1;
            let eff = [32, 32, 16, 64][self.r.idx(4)] * ETH;
            self.edit(|v, b| {
                v.push(Val { key: k, eff, slashed: false, elig: FAR, act: FAR, exit: FAR });
                b.push(eff);
            });
            self.event("deposit");
        }
        // effective balances
        if self.p.drift > 0 {
            let mut r = self.r.clone();
            let d = self.p.drift;
            self.edit(|v, b| {
                for (x, b) in v.iter_mut().zip(b) {
                    if r.below(100) < d {
                        let k = r.below(6);
                        x.eff = match k {
                            0 => x.eff - if x.eff > 20 * ETH { ETH } else { 0 },
                            1 => x.eff + ETH,
                            2 => (x.eff * 2).min(2048 * ETH),
                            3 => x.eff.max(33 * ETH) - ETH,
                            _ => x.eff,
                        };
                        *b = x.eff + r.below(ETH / 2);
                    }
                }
            });
            self.r.next();
        }
        // a validator that leaks down to the ejection balance
        if self.p.low > 0 && self.r.below(100) < self.p.low * 10 {
            let at = self.r.idx(n);
            if let Some(i) = (0..n).map(|k| (at + k) % n).find(|i| self.st.reg.vals[*i].eff == 17 * ETH) {
                self.edit(|v, b| {
                    v[i].eff = 16 * ETH;
                    b[i] = 16 * ETH;
                });
            }
        }
        let m = self.st.mix(e);
        self.st.set_mix(e + 1, m);
        self.st.voted = [self.st.voted[1].clone(), Arc::default()];
        self.st.root = None;
    }
    /// Advances the state to `slot` (one step).
    fn advance(&mut self, slot: u64) {
        if self.st.header.state_root == [0; 32] {
            self.st.header.state_root = self.st.root();
            self.st.root = None;
        }
        if slot % SPE == 0 {
            self.end_of_epoch();
        }
        self.st.slot = slot;
        self.st.root = None;
        if slot % SPE == 0 {
            let e = slot / SPE;
            let sched = schedule(&self.spec);
            let cur = sched.iter().rposition(|(x, _)| *x <= e).unwrap();
            if sched[cur].0 == e && e > self.p.base {
                self.st.fork = (self.st.fork.1, sched[cur].1, e);
            }
            let fulu = self.spec.fulu_fork_epoch.is_some_and(|f| f.as_u64() <= e);
            if fulu && !self.st.fulu {
                self.event("fork");
            }
            if fulu {
                let n = self.st.reg.vals.len() as u64;
                let mut r = Rng::new(self.seed ^ e);
                self.st.fulu = true;
                self.st.lookahead = std::array::from_fn(|_| r.below(n));
            }
            self.assign(e);
        }
    }
    fn assign(&mut self, e: u64) {
        let c = committees(&self.spec, &self.st.active(e), &seed_for(&self.st, e));
        self.com.insert(e, c);
    }
    fn propose(&mut self, slot: u64) {
        let e = slot / SPE;
        // votes that fit
        let mut take: Vec<Arc<Att>> = vec![];
        let mut keep = vec![];
        let mut pool = std::mem::take(&mut self.pool);
        // newest first: it is what proposers prefer, but not always
        if self.r.below(3) > 0 {
            pool.sort_by_key(|(_, a)| std::cmp::Reverse(a.data.slot.as_u64()));
        }
        for (due, a) in pool {
            let t = a.tgt().0;
            if t + 1 < e {
                continue;
            }
            if take.len() < 8 && due <= slot && a.data.slot.as_u64() < slot {
                let need = if t == e { self.st.cj } else { self.st.pj };
                if a.src() == need {
                    if self.r.below(12) == 0 && take.len() < 7 {
                        // proposers may repeat votes that are already included
                        keep.push((slot + 1, a.clone()));
                    }
                    take.push(a);
                }
            } else {
                keep.push((due, a));
            }
        }
        self.pool = keep;
        let reveal: [u8; 96] = {
            let mut b = [0; 96];
            self.r.fill(&mut b);
            b
        };
        let graffiti = self.r.bytes();
        let m = self.st.mix(e);
        let h = sha(&reveal);
        let mixed: H = std::array::from_fn(|i| m[i] ^ h[i]);
        self.st.set_mix(e, mixed);
        for a in &take {
            let t = a.tgt();
            let k = if t.0 == e { 1 } else { 0 };
            if t.1 == self.target_root(t.0) {
                Arc::make_mut(&mut self.st.voted[k]).extend(a.voters.iter().copied());
            }
        }
        // operations
        let n = self.st.reg.vals.len();
        if self.p.ops > 0 {
            let x = self.r.below(100 * 12);
            if x < self.p.ops * 2 {
                let i = self.r.idx(n);
                let v = &self.st.reg.vals[i];
                if v.act <= e {
                    match self.r.below(4) {
                        0 => self.slash(i),
                        1 => self.consolidate(i),
                        _ => self.exit(i),
                    }
                }
            }
        }
        let body = Block::body_root(&reveal, graffiti, &take);
        let proposer = self.r.below(n as u64);
        self.st.header = Header { slot, proposer, parent: self.head, state_root: [0; 32], body_root: body };
        self.st.root = None;
        let sr = self.st.root();
        let header = Header { state_root: sr, ..self.st.header };
        let root = header.tree().root();
        self.head = root;
        self.by_root.insert(root, slot);
        self.slots.push(Slot { block: Some(Arc::new(Block { header, root, reveal, graffiti, atts: take })), state: Arc::new(self.st.clone()) });
    }
    fn target_root(&self, e: u64) -> H {
        if e * SPE >= self.p.base * SPE + self.slots.len() as u64 {
            // the boundary block itself is being built: votes for it cannot be in it
            return self.head;
        }
        self.root_at(e * SPE)
    }
    /// Votes of the committees of this slot, which reach proposers some time later.
    fn vote(&mut self, slot: u64) {
        let e = slot / SPE;
        let mode = self.p.modes[(e - self.p.base) as usize];
        let com = self.com[&e][(slot % SPE) as usize].clone();
        let target = self.root_at(e * SPE);
        let source = self.st.cj;
        let head = self.root_at(slot);
        let old = self.root_at((e * SPE).max(self.p.base * SPE + 1) - 1);
        // a few other heads, sources of different aggregates
        let mut groups: BTreeMap<(u64, H, H), BTreeSet<usize>> = BTreeMap::new();
        let all = total(&self.st, self.st.active(e).into_iter());
        let _ = all;
        for i in com.iter().flatten().copied() {
            let x = Rng::new(self.seed ^ simkit::stable_hash(&(7u64, e, i as u64))).below(100);
            let in_time = 1 + if self.r.below(4) == 0 { self.r.below(6) } else { 0 };
            let next_epoch = || (e + 1) * SPE - slot;
            let delay = match mode {
                Mode::Full => (x < 97).then_some(in_time),
                Mode::Tight => (x < 78).then_some(in_time).or((x < 88).then(|| next_epoch() + self.r.below(30))),
                Mode::Late => (x < 45).then_some(in_time).or((x < 96).then(|| next_epoch() + self.r.below(30))),
                Mode::Weak => (x < 50).then_some(in_time),
            };
            let Some(d) = delay else { continue };
            let t = if slot % SPE < 2 && old != target && self.r.below(12) == 0 { old } else { target };
            let h = if self.r.below(30) == 0 { old } else { head };
            groups.entry((slot + d, h, t)).or_default().insert(i);
        }
        let dom = domain(1, self.st.fork.1, &self.st.gvr);
        for ((due, head, target), who) in groups {
            let data = AttestationData {
                slot: slot.into(),
                index: 0,
                beacon_block_root: head.into(),
                source: beacon_types::Checkpoint { epoch: Epoch::new(source.0), root: source.1.into() },
                target: beacon_types::Checkpoint { epoch: Epoch::new(e), root: target.into() },
            };
            let root = signing_root(&data, &dom);
            let mut parts: Vec<Vec<usize>> = vec![vec![]; 1 + self.r.idx(2)];
            for c in 0..com.len() {
                let k = self.r.idx(parts.len());
                parts[k].push(c);
            }
            for take in parts {
                let mine: Vec<usize> = take.iter().flat_map(|c| com[*c].iter().copied()).filter(|v| who.contains(v)).collect();
                if mine.is_empty() {
                    continue;
                }
                let halves: Vec<BTreeSet<usize>> = if self.r.below(6) == 0 && mine.len() > 2 {
                    let k = self.r.idx(mine.len());
                    vec![mine[..=k].iter().copied().collect(), mine[k / 2..].iter().copied().collect()]
                } else {
                    vec![mine.iter().copied().collect()]
                };
                for h in halves {
                    let mut bits = vec![];
                    let mut cb = 0u64;
                    let mut sig = AggregateSignature::infinity();
                    for c in &take {
                        if com[*c].iter().any(|v| h.contains(v)) {
                            cb |= 1 << c;
                            bits.extend(com[*c].iter().map(|v| h.contains(v)));
                        }
                    }
                    for v in &h {
                        sig.add_assign(&key(self.st.reg.vals[*v].key).sk.sign(root.into()));
                    }
                    self.pool.push((due, Arc::new(Att { data, bits, committees: cb, sig: sig.serialize(), voters: h })));
                }
            }
        }
    }
}

impl Chain {
    pub fn build(spec: &ChainSpec, p: &Profile, seed: u64) -> Chain {
        let mut r = Rng::new(seed);
        let base = p.base;
        let n = p.n;
        let slot0 = base * SPE;
        let mut vals = vec![];
        for i in 0..n as u64 {
            let eff = if p.equal {
                32 * ETH
            } else {
                match r.below(10) {
                    0 => (33 + r.below(400)) * ETH,
                    1 => (17 + r.below(15)) * ETH,
                    2 => (33 + r.below(30)) * ETH,
                    _ => 32 * ETH,
                }
            };
            let eff = if p.low > 0 && r.below(8) == 0 { 17 * ETH } else { eff };
            let mut v = Val { key: i, eff, slashed: false, elig: base / 2, act: base / 2, exit: FAR };
            let x = r.below(100);
            if x < p.exited && base > 1 {
                v.exit = (base + 2).saturating_sub(r.below(5)).max(1);
                v.act = v.act.min(v.exit - 1);
                v.elig = v.act;
                v.slashed = r.below(3) == 0;
            } else if x < p.exited + p.leaving {
                v.exit = base + 1 + r.below(9);
                v.slashed = r.below(4) == 0;
            } else if x < p.exited + p.leaving + p.joining {
                match r.below(3) {
                    0 => {
                        v.elig = base;
                        v.act = base + 1 + r.below(5);
                    }
                    1 => {
                        v.elig = base + r.below(4).min(1);
                        v.act = FAR;
                    }
                    _ => {
                        v.elig = FAR;
                        v.act = FAR;
                        v.eff = [32, 31, 64][r.idx(3)] * ETH;
                    }
                }
            } else if r.below(100) < p.slashed {
                v.slashed = true;
                v.exit = base + 6 + r.below(20);
            }
            vals.push(v);
        }
        let bal = vals.iter().map(|v| v.eff + r.below(ETH / 4)).collect();
        let gvr = sha(&[&b"gvr"[..], &seed.to_le_bytes()].concat());
        let sched = schedule(spec);
        let cur = sched.iter().rposition(|(e, _)| *e <= base).unwrap();
        let prev = if sched[cur].0 == 0 { cur } else { cur - 1 };
        let fulu = spec.fulu_fork_epoch.is_some_and(|f| f.as_u64() <= base);
        let cp = |e: u64, r: &mut Rng| if e == 0 { (0, [0; 32]) } else { (e, r.bytes()) };
        let (pj, cj, fin, bits) = if base < 2 {
            ((0, [0; 32]), (0, [0; 32]), (0, [0; 32]), [false; 4])
        } else {
            let cj = cp(base - 1, &mut r);
            let pj = cp(base - 2, &mut r);
            (pj, cj, pj, [true, true, base > 2, base > 3])
        };
        let mut mixes = BTreeMap::new();
        let mut mix_tree = Node::Zero(16);
        for e in base.saturating_sub(4)..=base {
            let h: H = r.bytes();
            mixes.insert(e % MIXES, h);
            mix_tree = mix_tree.with(MIXES + e % MIXES, Node::leaf(h));
        }
        // the two mixes before the first epochs, as at genesis
        if base < 4 {
            for e in 1..=4u64 {
                let i = (base + MIXES - e) % MIXES;
                let h: H = r.bytes();
                mixes.entry(i).or_insert_with(|| {
                    mix_tree = mix_tree.with(MIXES + i, Node::leaf(h));
                    h
                });
            }
        }
        let (ee, ec) = match r.below(3) {
            0 => (0, 0),
            1 => (base + r.below(8), base + r.below(8)),
            _ => (base + 5 + r.below(4), base + 5 + r.below(4)),
        };
        let z = [0; 32];
        let st = State {
            slot: slot0,
            gvr,
            genesis_time: 1_600_000_000,
            fork: (sched[prev].1, sched[cur].1, sched[cur].0),
            fulu,
            header: Header { slot: slot0, proposer: 0, parent: if slot0 == 0 { z } else { r.bytes() }, state_root: z, body_root: r.bytes() },
            reg: Arc::new(Registry::new(vals, bal)),
            mixes: Arc::new(mixes),
            mix_tree,
            bits,
            pj,
            cj,
            fin,
            exit_left: r.below(64) * ETH,
            earliest_exit: ee,
            cons_left: r.below(64) * ETH,
            earliest_cons: ec,
            lookahead: std::array::from_fn(|i| i as u64 % n as u64),
            voted: [Arc::default(), Arc::default()],
            root: None,
        };
        let mut b = Builder {
            spec: spec.clone(),
            p: p.clone(),
            st,
            r,
            slots: vec![],
            by_root: BTreeMap::new(),
            head: z,
            pool: vec![],
            com: BTreeMap::new(),
            events: BTreeMap::new(),
            next_key: n as u64,
            seed,
        };
        // first block: only its header is fixed from outside, its body is empty
        let reveal = [7; 96];
        let body = Block::body_root(&reveal, z, &[]);
        b.st.header.body_root = body;
        let sr = b.st.root();
        let header = Header { state_root: sr, ..b.st.header };
        let root = header.tree().root();
        b.head = root;
        b.by_root.insert(root, slot0);
        b.slots.push(Slot { block: Some(Arc::new(Block { header, root, reveal, graffiti: z, atts: vec![] })), state: Arc::new(b.st.clone()) });
        b.assign(base);
        b.vote(slot0);
        for slot in slot0 + 1..(base + p.epochs) * SPE {
            b.advance(slot);
            let e = (slot / SPE - base) as usize;
            let next = (slot + SPE - 1) / SPE;
            let gap = |k: usize, s: u64| p.boundary.get(k).copied().flatten().is_some_and(|g| s + g >= (base + k as u64) * SPE && s <= (base + k as u64) * SPE);
            let missing = gap(e, slot) || gap((next - base) as usize, slot) || b.r.below(100) < p.skip || (p.outage.0..p.outage.1).contains(&(slot - slot0));
            if missing {
                b.event(if slot % SPE == 0 { "missed-boundary" } else { "missed-block" });
                b.st.root();
                let s = Arc::new(b.st.clone());
                b.slots.push(Slot { block: None, state: s });
            } else {
                b.propose(slot);
            }
            b.vote(slot);
        }
        let genesis = genesis_json(&gvr);
        Chain { spec: spec.clone(), profile: p.clone(), gvr, seed, slots: b.slots, by_root: b.by_root, genesis, events: b.events, committees: b.com }
    }
    pub fn first(&self) -> u64 {
        self.profile.base * SPE
    }
    pub fn last(&self) -> u64 {
        self.first() + self.slots.len() as u64 - 1
    }
    pub fn get(&self, slot: u64) -> Option<&Slot> {
        slot.checked_sub(self.first()).and_then(|i| self.slots.get(i as usize))
    }
    /// State at the first slot of an epoch.
    pub fn start(&self, e: u64) -> Option<&Arc<State>> {
        self.get(e * SPE).map(|s| &s.state)
    }
    /// Slot of the latest block at or before a slot.
    pub fn block_before(&self, slot: u64) -> Option<u64> {
        let mut s = slot;
        while s >= self.first() {
            if self.get(s)?.block.is_some() {
                return Some(s);
            }
            s = s.checked_sub(1)?;
        }
        None
    }
    pub fn checkpoint(&self, e: u64) -> Option<Cp> {
        let s = self.block_before(e * SPE)?;
        Some((e, self.get(s)?.block.as_ref()?.root))
    }
    /// Finalized checkpoints inside the simulated part, in order.
    pub fn finalized(&self) -> Vec<Cp> {
        let mut out: Vec<Cp> = vec![];
        for e in self.profile.base..self.profile.base + self.profile.epochs {
            let f = self.start(e).unwrap().fin;
            if f.0 >= self.profile.base.max(1) && out.last() != Some(&f) && self.by_root.contains_key(&f.1) {
                out.push(f);
            }
        }
        out
    }
    /// What following the chain from `f` means, looking at states up to the first one of `until`.
    pub fn plan(&self, f: Cp, until: u64) -> Result<Plan, NoPlan> {
        let mut e = f.0 + 1;
        let state = |e: u64| if e <= until { self.start(e) } else { None };
        let j = loop {
            let s = state(e).ok_or(NoPlan::NotYet)?;
            if s.fin == f {
                break s.cj;
            }
            if s.fin.0 >= f.0 {
                return Err(NoPlan::OutOfScope("skipped"));
            }
            e += 1;
        };
        let mut links = vec![];
        let mut cj = j;
        loop {
            e += 1;
            let s = state(e).ok_or(NoPlan::NotYet)?;
            if s.cj == cj && s.fin == f {
                continue;
            }
            if s.cj == cj {
                return Err(NoPlan::OutOfScope("finality without justification"));
            }
            links.push((cj, s.cj));
            if s.fin != f {
                if s.fin != cj || s.cj.0 != cj.0 + 1 {
                    return Err(NoPlan::OutOfScope("two-finality"));
                }
                let slot = *self.by_root.get(&s.fin.1).ok_or(NoPlan::NotYet)?;
                return Ok(Plan { f, j, links, post: (s.cj, s.fin), slot, seen: e });
            }
            if s.cj.0 == cj.0 + 1 {
                return Err(NoPlan::OutOfScope("adjacent justification without finality"));
            }
            cj = s.cj;
        }
    }
    /// All votes in canonical blocks up to a slot for one link.
    pub fn votes(&self, link: (Cp, Cp), until: u64) -> Vec<Arc<Att>> {
        self.slots
            .iter()
            .take((until + 1).saturating_sub(self.first()) as usize)
            .filter_map(|s| s.block.as_ref())
            .flat_map(|b| b.atts.iter())
            .filter(|a| a.src() == link.0 && a.tgt() == link.1)
            .cloned()
            .collect()
    }
    /// Weight for a link and total, with balances and slashed flags of `s` and activity as in the chain.
    pub fn support(&self, link: (Cp, Cp), until: u64, s: &State) -> (u64, u64) {
        let who: BTreeSet<usize> = self.votes(link, until).iter().flat_map(|a| a.voters.iter().copied()).collect();
        let active = self.start(link.1 .0).unwrap().active(link.1 .0);
        let known = |i: &usize| *i < s.reg.vals.len();
        let all: u64 = active.iter().copied().filter(|i| known(i)).map(|i| s.reg.vals[i].eff).sum();
        let with: u64 = who.into_iter().filter(|i| known(i) && !s.reg.vals[*i].slashed && active.contains(i)).map(|i| s.reg.vals[i].eff).sum();
        (with.max(ETH), all.max(ETH))
    }
    /// Post-state of the block of a checkpoint.
    pub fn trusted(&self, f: Cp) -> &Arc<State> {
        &self.get(self.by_root[&f.1]).unwrap().state
    }
}

/// A first state of a chain as it was before any fork.
fn genesis_json(gvr: &H) -> String {
    let z = hex(&[0; 32]);
    let h = Header { slot: 0, proposer: 0, parent: [0; 32], state_root: [0; 32], body_root: [0; 32] };
    let c = cp_json(&(0, [0; 32]));
    format!(
        concat!(
            r#"{{"version":"phase0","data":{{"genesis_time":"1600000000","genesis_validators_root":"{}","slot":"0","fork":{{"previous_version":"0x00000000","current_version":"0x00000000","epoch":"0"}},"#,
            r#""latest_block_header":{},"block_roots":[],"state_roots":[],"historical_roots":[],"eth1_data":{{"deposit_root":"{z}","deposit_count":"0","block_hash":"{z}"}},"eth1_data_votes":[],"#,
            r#""eth1_deposit_index":"0","validators":[],"balances":[],"randao_mixes":[],"slashings":[],"previous_epoch_attestations":[],"current_epoch_attestations":[],"justification_bits":"0x00","#,
            r#""previous_justified_checkpoint":{c},"current_justified_checkpoint":{c},"finalized_checkpoint":{c}}}}}"#
        ),
        hex(gvr),
        h.json(),
        z = z,
        c = c
    )
}
