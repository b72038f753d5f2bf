//! Beacon nodes and state stores that lie, in front of the real builder and verifier.
use crate::api::{Head, Node, Twist, not_found};
use crate::build::*;
use crate::chain::{Chain, Cp, SPE};
use crate::follow::{Case, short};
use crate::sys::Scratch;
use simkit::{Ctx, Rng, RunResult, must, violate};
use simrt::net::Reply;
use std::collections::BTreeMap;
use std::sync::Arc;
use std::sync::atomic::{AtomicU64, Ordering};

pub const LIES: [&str; 9] =
    ["other-chain", "other-slot", "stale-finality", "altered-state", "altered-block", "altered-header", "altered-finality", "absent", "wrong-version"];

#[derive(Clone, Debug)]
pub struct Lie {
    pub kind: usize,
    /// hits requests for these slots only
    slots: Option<(u64, u64)>,
    /// chance of hitting a matching request in percent
    often: u64,
    /// for altered content: field and how
    field: usize,
    how: u64,
    shift: i64,
}

fn slot_of(path: &str) -> Option<u64> {
    path.trim_end_matches("/finality_checkpoints").rsplit('/').next()?.parse().ok()
}
fn class(path: &str) -> &'static str {
    if path.contains("/headers/") {
        "header"
    } else if path.contains("/blocks/") {
        "block"
    } else if path.ends_with("/finality_checkpoints") {
        "finality"
    } else if path.contains("/debug/beacon/states/") {
        "state"
    } else {
        "other"
    }
}
const STATE_FIELDS: [&str; 22] = [
    "effective_balance",
    "exit_epoch",
    "activation_epoch",
    "activation_eligibility_epoch",
    "slashed",
    "slot",
    "pubkey",
    "earliest_exit_epoch",
    "earliest_consolidation_epoch",
    "epoch",
    "root",
    "parent_root",
    "body_root",
    "genesis_validators_root",
    "current_version",
    "previous_version",
    "withdrawal_credentials",
    "withdrawable_epoch",
    "exit_balance_to_consume",
    "proposer_index",
    "state_root",
    "randao_mixes",
];
const BLOCK_FIELDS: [&str; 12] =
    ["aggregation_bits", "committee_bits", "slot", "index", "beacon_block_root", "epoch", "root", "signature", "state_root", "parent_root", "randao_reveal", "graffiti"];
const HEADER_FIELDS: [&str; 6] = ["slot", "proposer_index", "parent_root", "state_root", "body_root", "root"];
const FIN_FIELDS: [&str; 2] = ["epoch", "root"];

/// Changes one value of a field somewhere in a JSON text.
fn alter(body: &[u8], field: &str, how: u64, r: &mut Rng) -> Vec<u8> {
    let s = String::from_utf8_lossy(body).into_owned();
    let pat = format!("\"{field}\":");
    let at: Vec<usize> = s.match_indices(&pat).map(|(i, _)| i + pat.len()).collect();
    if at.is_empty() {
        return body.to_vec();
    }
    let start = at[r.idx(at.len())];
    let rest = &s[start..];
    if field == "randao_mixes" {
        // one of the known mixes
        let Some(end) = rest.find(']') else { return body.to_vec() };
        let Some(h) = rest[..end].rfind("0x") else { return body.to_vec() };
        let i = start + h + 2 + r.idx(64);
        return flip(s, i, r);
    }
    if let Some(x) = rest.strip_prefix("true").map(|_| "true").or_else(|| rest.strip_prefix("false").map(|_| "false")) {
        let y = if x == "true" { "false" } else { "true" };
        return [&s[..start], y, &rest[x.len()..]].concat().into_bytes();
    }
    let Some(v) = rest.strip_prefix('"') else { return body.to_vec() };
    let Some(end) = v.find('"') else { return body.to_vec() };
    let old = &v[..end];
    if old.starts_with("0x") {
        if old.len() <= 2 {
            return body.to_vec();
        }
        let i = start + 1 + 2 + r.idx(old.len() - 2);
        return flip(s, i, r);
    }
    let n: u64 = old.parse().unwrap_or(0);
    let new = match how % 6 {
        0 => n.wrapping_add(1),
        1 => n.wrapping_sub(1),
        2 => 0,
        3 => u64::MAX,
        4 => n.wrapping_mul(2),
        _ => n.wrapping_add(SPE),
    };
    [&s[..start + 1], &new.to_string(), &v[end..]].concat().into_bytes()
}
fn flip(s: String, i: usize, r: &mut Rng) -> Vec<u8> {
    let mut b = s.into_bytes();
    let c = b"0123456789abcdef"[r.idx(16)];
    b[i] = if b[i] == c { if c == b'0' { b'1' } else { b'0' } } else { c };
    b
}

fn tell(l: &Lie, a: &Arc<Chain>, b: &Arc<Chain>, head: u64, path: &str, good: Reply, r: &mut Rng) -> Reply {
    let node = |c: &Arc<Chain>| Node { chain: c.clone(), head: Head::At(head), lag: 0 };
    let c = class(path);
    let edit = |want: &str, fields: &[&str], r: &mut Rng| {
        let mut g = good.clone();
        if c == want && g.status == 200 {
            g.body = alter(&g.body, fields[l.field % fields.len()], l.how, r);
        }
        g
    };
    match LIES[l.kind] {
        "other-chain" => {
            // what is asked for by root is looked up at the same slot of the other chain
            match path.rsplit('/').next().and_then(|x| x.strip_prefix("0x")) {
                Some(h) => {
                    let mut root = [0; 32];
                    let _ = crate::api::hex_to(h, &mut root);
                    match a.by_root.get(&root) {
                        Some(s) => node(b).answer(&path.replace(&format!("0x{h}"), &s.to_string())),
                        None => good,
                    }
                }
                None => node(b).answer(path),
            }
        }
        "other-slot" | "stale-finality" => {
            let Some(s) = slot_of(path) else { return good };
            if LIES[l.kind] == "stale-finality" && c != "finality" {
                return good;
            }
            let t = s.saturating_add_signed(l.shift);
            if t == 0 {
                return good;
            }
            match path.strip_suffix("/finality_checkpoints") {
                Some(p) => {
                    let p = &p[..p.rfind('/').unwrap() + 1];
                    node(a).answer(&format!("{p}{t}/finality_checkpoints"))
                }
                None => {
                    let p = &path[..path.rfind('/').unwrap() + 1];
                    node(a).answer(&format!("{p}{t}"))
                }
            }
        }
        "altered-state" => edit("state", &STATE_FIELDS, r),
        "altered-block" => edit("block", &BLOCK_FIELDS, r),
        "altered-header" => edit("header", &HEADER_FIELDS, r),
        "altered-finality" => edit("finality", &FIN_FIELDS, r),
        "absent" => not_found(),
        _ => {
            let mut g = good;
            if c == "state" || c == "block" {
                let s = String::from_utf8_lossy(&g.body).into_owned();
                let to = ["electra", "fulu", "deneb", "phase0"][l.field % 4];
                for v in ["electra", "fulu"] {
                    if s.starts_with(&format!("{{\"version\":\"{v}\"")) {
                        g.body = s.replacen(v, to, 1).into_bytes();
                        break;
                    }
                }
            }
            g
        }
    }
}

/// Some lies about what a follower of the epoch `f` asks for.
pub fn draw(ctx: &mut Ctx, n: u64, f: u64) -> Vec<Lie> {
    let mut lies = vec![];
    for _ in 0..n {
        let kind = ctx.t.idx(LIES.len());
        let slots = if ctx.t.chance(1, 2) {
            let a = (f * SPE).saturating_sub(SPE) + ctx.t.below(6) * SPE;
            Some((a, a + *ctx.t.pick(&[0u64, 32, 64, 300])))
        } else {
            None
        };
        let shift = *ctx.t.pick(&[1i64, -1, -32, 32, 64, -64, -7, 3, 96]);
        lies.push(Lie { kind, slots, often: *ctx.t.pick(&[100u64, 100, 30, 3]), field: ctx.t.raw() as usize % 1000, how: ctx.t.below(6), shift });
    }
    lies
}
/// Tells the lies about chain `a`, with the help of chain `b`.
pub fn liar(lies: Vec<Lie>, a: Arc<Chain>, b: Arc<Chain>, head: u64, seed: u64, counts: Arc<Vec<AtomicU64>>) -> Twist {
    let mut r = Rng::new(seed);
    Box::new(move |path: &str, mut good: Reply| {
        for l in &lies {
            let slot = slot_of(path);
            if l.slots.is_some_and(|(x, y)| slot.is_none_or(|s| s < x || s > y)) || r.below(100) >= l.often {
                continue;
            }
            let before = good.clone();
            good = tell(l, &a, &b, head, path, good, &mut r);
            if good.body != before.body || good.status != before.status {
                counts[l.kind].fetch_add(1, Ordering::Relaxed);
            }
        }
        good
    })
}

pub fn c14(ctx: &mut Ctx) -> RunResult {
    let case = Case::draw(ctx, false);
    let Some(p) = case.any(ctx) else { return Ok(()) };
    let profile = {
        let mut q = case.chain.profile.clone();
        if ctx.t.chance(1, 3) {
            q.equal = !q.equal;
        }
        q
    };
    let other_seed = ctx.t.raw();
    must!(other_seed != case.chain.seed, "same-seed", "drawn twice");
    let other = Arc::new(Chain::build(&case.chain.spec, &profile, other_seed));
    let dir = Scratch::new();
    let mut f: Cp = p.f;
    let honest = f;
    let mut told: BTreeMap<&'static str, u64> = BTreeMap::new();
    // a store with states of another chain, or under wrong names
    let store = ctx.t.below(6);
    let mut at = vec![];
    if store == 1 || store == 2 {
        let src = Scratch::new();
        let from = if store == 1 { &other } else { &case.chain };
        let mut e = Env::plain(case.head, src.path().to_path_buf());
        let base = f.0 * SPE;
        for _ in 0..1 + ctx.t.below(4) {
            let s = match ctx.t.below(4) {
                0 => case.chain.trusted(f).slot,
                1 => base,
                2 => (base + SPE * (1 + ctx.t.below(4))).min(case.head),
                _ => base + ctx.t.below((case.head - base).max(1)),
            };
            e.warm.push(s);
        }
        at = e.warm.clone();
        let _ = build(from, &case.cfg, f, &e);
        let names: Vec<u64> = e.warm.clone();
        for s in names {
            let a = src.path().join(format!("{s}_beacon_state.ssz"));
            let t = if store == 1 { s } else { s + 1 - 2 * ctx.t.below(2) };
            let b = dir.path().join(format!("{t}_beacon_state.ssz"));
            if a.exists() && !b.exists() {
                std::fs::copy(&a, &b).unwrap();
                *told.entry(if store == 1 { "foreign-store" } else { "shifted-store" }).or_default() += 1;
            }
        }
    }
    // a checkpoint that is not one of the chain
    if ctx.t.chance(1, 8) {
        match ctx.t.below(3) {
            0 => f.1[ctx.t.idx(32)] ^= 1 << ctx.t.below(8),
            1 => f = (f.0, other.checkpoint(f.0).map_or([9; 32], |c| c.1)),
            _ => f = (f.0 + 1, f.1),
        }
        *told.entry("false-checkpoint").or_default() += 1;
    }
    let n = ctx.t.below(3) + (told.is_empty() as u64);
    let lies = draw(ctx, n, f.0);
    let mut env = Env::draw(ctx, &case.chain, case.head, dir.path().to_path_buf());
    env.warm.clear();
    let seed = ctx.t.raw();
    let counts: Vec<AtomicU64> = LIES.iter().map(|_| AtomicU64::new(0)).collect();
    let counts = Arc::new(counts);
    let (a, b, head) = (case.chain.clone(), other.clone(), case.head);
    let (l2, c2) = (lies.clone(), counts.clone());
    let d = build_with(&case.chain, &case.cfg, f, &env, move || Some(liar(l2, a, b, head, seed, c2)));
    merge(ctx, &d);
    for (i, k) in LIES.iter().enumerate() {
        let n = counts[i].load(Ordering::Relaxed);
        if n > 0 {
            told.insert(k, n);
        }
    }
    for (k, n) in &told {
        *ctx.faults.entry(k.to_string()).or_default() += n;
    }
    let what = match &d.result {
        Ok(_) => "built".to_string(),
        Err(e) => format!("{e:?}").chars().take(100).collect(),
    };
    ctx.log(format!("trusted {} of {}, links {:?}, told {told:?} {lies:?} store {at:?}: {what}", short(f), short(honest), case.shape(&p)));
    let kinds: Vec<&&str> = told.keys().collect();
    let b = match &d.result {
        Err(e) => {
            ctx.count(e.stage());
            ctx.cover_of(&(e.stage(), kinds));
            return Ok(());
        }
        Ok(b) => b,
    };
    must!(f == honest, "false-checkpoint-built", "an input was built for {}, which is no checkpoint of the chain", short(f));
    must!(cps(&b.pre).1 == honest, "other-checkpoint", "the input starts from {:?} instead of {}", b.pre, short(honest));
    let input: z_core::GuestInput<E> = match bincode::deserialize(&b.bytes) {
        Ok(i) => i,
        Err(e) => violate!("undecodable", "{e}"),
    };
    // the builder compares what it got with the trusted root
    must!(input.beacon_block.verify(&honest.1.into()).is_ok(), "other-block", "the block in the input is not the trusted one");
    let ts = case.chain.trusted(honest);
    must!(input.beacon_state.verify(&ts.root_of().into()).is_ok(), "other-state", "the state in the input is not the trusted one");
    must!(input.active_validators.verify(&ts.reg.tree.root().into()).is_ok(), "other-validators", "the validators in the input are not the trusted ones");
    let v = verify(&case.chain.spec, &case.cfg, &b.bytes, &[]);
    match v.result {
        Ok((s, slot)) => {
            let (_, fin) = cps(&s);
            let ok = case.chain.finalized().contains(&fin) && fin.0 > honest.0;
            must!(ok, "false-finality", "verified to {} from {}, which the chain did not finalize ({told:?})", short(fin), short(honest));
            must!(case.chain.by_root.get(&fin.1) == Some(&slot), "false-slot", "verified slot {slot} for {}", short(fin));
            ctx.count("verified");
            ctx.cover_of(&("verified", kinds));
        }
        Err(_) => {
            ctx.count("built-but-refused");
            ctx.cover_of(&("refused", kinds));
        }
    }
    Ok(())
}
