//! C05: a channel that tampers with chain data. C10: a prover that makes up lookahead data.
use crate::scene::*;
use crate::world::*;
use beacon_types::MinimalEthSpec;
use bls::PublicKey;
use simkit::{must, Ctx, RunResult};
use simtree::{Node, H};
use simwire::{prove, Wire};
use std::collections::{BTreeMap, BTreeSet};
use z_core::{Checkpoint, EthSpec, MainnetEthSpec, ValidatorInfo};

const TAMPER: [&str; 21] = [
    "bit-flip",
    "altered-node",
    "altered-tree",
    "hide-validator",
    "show-exited",
    "drop-value",
    "add-value",
    "other-field",
    "swap-validators",
    "swap-keys",
    "edit-key",
    "replace-key",
    "splice-other-witness",
    "extra-state-values",
    "fewer-state-values",
    "slot-of-other-block",
    "slot-other-field",
    "registry-length",
    "extra-keys",
    "hint",
    "descriptor-bits",
];

pub fn c05(ctx: &mut Ctx) -> RunResult {
    // a registry whose indices do not fit 16 bits
    let crowd = ctx.t.chance(1, 6000);
    if crowd || ctx.t.chance(1, 12) {
        let w = World::<MainnetEthSpec>::new(ctx);
        tampered(ctx, w, crowd)
    } else {
        let w = World::<MinimalEthSpec>::new(ctx);
        tampered(ctx, w, false)
    }
}

fn keys_of(vals: &[Val], forms: &[bool]) -> Vec<PublicKey> {
    vals.iter().zip(forms).filter(|(_, x)| !**x).map(|(v, _)| key(v.key).pk.clone()).collect()
}

fn flip_bit(w: &mut Wire, part: u64, k: u64) {
    match part {
        0 => {
            let n = w.data.len() as u64 * 8;
            let k = k % n;
            w.data[(k / 8) as usize] ^= 1 << (k % 8);
        }
        1 => {
            let n = w.value_mask.len() as u64;
            if n > 0 {
                let i = (k % n) as usize;
                let b = w.value_mask[i];
                w.value_mask.set(i, !b);
            }
        }
        _ => {
            let n = w.descriptor.len() as u64;
            let i = (k % n) as usize;
            let b = w.descriptor[i];
            w.descriptor.set(i, !b);
        }
    }
}

fn tampered<E: EthSpec>(ctx: &mut Ctx, mut w: World<E>, crowd: bool) -> RunResult {
    w.profile.n = 20 + ctx.t.below(30) as usize;
    if crowd {
        w.profile.n = (1 << 16) + ctx.t.below(64) as usize;
        w.spec.shuffle_round_count = 3;
        (w.profile.slashed, w.profile.leaving, w.profile.exited, w.profile.joining) = (0, 0, 0, 0);
        ctx.count("crowd");
    }
    w.cfg.justification_threshold_factor = 2;
    w.cfg.justification_threshold_quotient = 3;
    w.profile.slashed = w.profile.slashed.min(5);
    let links = plan(&w, ctx);
    let r = ctx.t.fork();
    let mut sc = Scene::new(w, links.clone(), r);
    let good = sc.draft(&[]);
    let f = sc.w.f;
    let epochs: BTreeSet<u64> = (f..=f + 10).collect();
    let Ok(bytes) = good.encode() else { return Ok(()) };
    let (base, facts) = deliver::<E>(&bytes, &sc.w.spec, &sc.w.cfg, &epochs);
    let Some(facts) = facts else {
        simkit::violate!("genuine-refused", "a genuine witness was refused: {base:?}");
    };
    // what the chain says
    for t in &epochs {
        let want: Vec<(usize, ValidatorInfo)> = sc.w.active(&sc.vals, sc.patches.get(t), *t).into_iter().map(|i| (i, info(&sc.vals[i]))).collect();
        must!(facts.active[t] == want, "registry-misread", "active validators of epoch {t} differ from the committed registry");
    }
    must!(facts.gvr.0 == sc.w.gvr, "root-misread", "genesis validators root differs from the committed one");
    if let Outcome::Accept { slot, .. } = &base {
        must!(*slot == sc.w.snap(links.last().unwrap().0).slot, "slot-misread", "finalized slot {slot} differs from the block's");
    }
    if crowd {
        must!(matches!(base, Outcome::Accept { .. }), "genuine-refused", "a genuine witness with {} validators was refused: {base:?}", sc.vals.len());
        ctx.cover_of(&"crowd");
        return Ok(());
    }
    let mut d = good.clone();
    let mut names = vec![];
    for _ in 0..1 + ctx.t.below(3) {
        let name = TAMPER[ctx.t.idx(TAMPER.len())];
        names.push(name);
        ctx.fault(name);
        tamper(ctx, &mut sc, &mut d, name);
    }
    let Ok(bytes2) = d.encode() else {
        ctx.count("undecodable");
        return Ok(());
    };
    ctx.steps += 1;
    let (o, f2) = deliver::<E>(&bytes2, &sc.w.spec, &sc.w.cfg, &epochs);
    let stage = match &o {
        Outcome::Reject { at, .. } => at,
        _ => "accept",
    };
    ctx.count(&format!("outcome_{stage}"));
    let why = if let Outcome::Reject { why, .. } = &o { why.chars().filter(|c| !c.is_ascii_digit()).take(40).collect() } else { String::new() };
    ctx.cover_of(&(stage, &names, why));
    ctx.log(format!("{names:?}: {stage}"));
    if let Outcome::Accept { .. } = &o {
        must!(o == base, "outcome-changed", "tampering {names:?} changed the outcome from {base:?} to {o:?}");
        ctx.count("harmless");
    }
    if let Some(f2) = f2 {
        must!(f2 == facts, "facts-changed", "tampered witness ({names:?}) was accepted with other facts: {}", difference(&facts, &f2));
    }
    Ok(())
}

fn difference(a: &Facts, b: &Facts) -> String {
    if a.gvr != b.gvr {
        return "genesis validators root".into();
    }
    for (e, x) in &a.active {
        if b.active[e] != *x {
            let y = &b.active[e];
            let k = x.iter().zip(y).position(|(p, q)| p != q);
            return format!("active validators of epoch {e}: {} instead of {}, first difference at {k:?}", y.len(), x.len());
        }
    }
    for (e, x) in &a.seeds {
        if b.seeds[e] != *x {
            return format!("seed of epoch {e}");
        }
    }
    "consensus state".into()
}

pub fn info(v: &Val) -> ValidatorInfo {
    ValidatorInfo {
        pubkey: key(v.key).pk.clone(),
        effective_balance: v.eff,
        slashed: v.slashed,
        activation_eligibility_epoch: v.elig.into(),
        activation_epoch: v.act.into(),
        exit_epoch: v.exit.into(),
    }
}

fn tamper<E: EthSpec>(ctx: &mut Ctx, sc: &mut Scene<E>, d: &mut Draft<E>, name: &str) {
    let s = sc.s.clone();
    let forms: Vec<bool> = s.vals.iter().map(|v| v.exit <= s.epoch).collect();
    let nv = s.vals.len();
    let pick_wire = |ctx: &mut Ctx, d: &mut Draft<E>| -> *mut Wire {
        match ctx.t.below(4) {
            0 => &mut d.block,
            1 => &mut d.state,
            3 if !d.slots.is_empty() => &mut d.slots[0],
            _ => &mut d.vals,
        }
    };
    match name {
        "bit-flip" | "descriptor-bits" => {
            // SAFETY: the pointer is to a part of `d`, used before anything else touches it
            let w = unsafe { &mut *pick_wire(ctx, d) };
            let part = if name == "bit-flip" { 0 } else { 1 + ctx.t.below(2) };
            let k = ctx.t.raw();
            flip_bit(w, part, k);
            if part > 0 && ctx.t.chance(1, 2) {
                let k = ctx.t.raw();
                flip_bit(w, part, k);
            }
        }
        "altered-node" => {
            let w = unsafe { &mut *pick_wire(ctx, d) };
            let k = ctx.t.idx(w.data.len() / 32);
            let x: H = match ctx.t.below(4) {
                0 => u64_chunk(FAR),
                1 => u64_chunk(ctx.t.below(3)),
                2 => u64_chunk(32 * ETH),
                _ => sc.r.bytes(),
            };
            w.data[k * 32..k * 32 + 32].copy_from_slice(&x);
        }
        "altered-tree" => {
            let (mut vals, mut fin, mut ee, mut slot) = (s.vals.clone(), s.fin, s.earliest_exit, s.slot);
            match ctx.t.below(4) {
                0 => {
                    let i = ctx.t.idx(nv);
                    let v = &mut vals[i];
                    match ctx.t.below(6) {
                        0 => v.eff = v.eff.wrapping_add(ETH),
                        1 => v.slashed = !v.slashed,
                        2 => v.exit = if v.exit == FAR { s.epoch + 1 } else { FAR },
                        3 => v.act = v.act.wrapping_add(1),
                        4 => v.elig = v.elig.wrapping_sub(1),
                        _ => v.key += 500_000,
                    }
                }
                1 => fin = fin.wrapping_add(1),
                2 => ee = ee.wrapping_sub(2),
                _ => slot = slot.wrapping_sub(1),
            }
            let fake = sc.w.build_snap(s.epoch, slot, fin, vals, ee, s.earliest_consolidation);
            let fo: Vec<bool> = fake.vals.iter().map(|v| v.exit <= s.epoch).collect();
            let levels = ctx.t.below(3);
            d.vals = vals_wire(&fake.list, &fo);
            d.keys = keys_of(&fake.vals, &fo);
            if levels > 0 {
                d.state = prove(&fake.state, &STATE_GINDICES);
            }
            if levels > 1 {
                d.block = prove(&fake.header, &[11]);
            }
        }
        "hide-validator" | "show-exited" => {
            let mut fo = forms.clone();
            let from: Vec<usize> = (0..nv).filter(|i| fo[*i] == (name == "show-exited")).collect();
            if !from.is_empty() {
                for _ in 0..1 + ctx.t.below(3) {
                    // those about to exit first
                    let k = ctx.t.idx(from.len());
                    let soon = from.iter().copied().find(|i| s.vals[*i].exit == s.epoch + 1);
                    let i = if name == "hide-validator" && ctx.t.chance(1, 3) { soon.unwrap_or(from[k]) } else { from[k] };
                    fo[i] = !fo[i];
                }
            }
            d.vals = vals_wire(&s.list, &fo);
            d.keys = keys_of(&s.vals, &fo);
        }
        "drop-value" | "add-value" => {
            let mut g: Vec<u64> = forms.iter().enumerate().flat_map(|(i, x)| val_gindices(i, *x)).collect();
            if name == "drop-value" {
                for _ in 0..1 + ctx.t.below(3) {
                    let k = ctx.t.idx(g.len());
                    g.remove(k);
                }
                g.push(3);
            } else {
                g.push(3);
                let i = ctx.t.idx(nv + 1) as u64;
                let extra = [(BASE + i) * 8 + 7, (BASE + i) * 8 + 1, (BASE + i) * 8 + 6, (BASE + i) * 16];
                let e = extra[ctx.t.idx(4)];
                if !g.contains(&e) && (i as usize) < nv {
                    g.push(e);
                }
                g.sort_by(|a, b| simwire::tree_order(*a, *b));
            }
            g.dedup();
            let ok = g.iter().all(|x| !g.iter().any(|y| simwire::is_ancestor(*x, *y) && x != y));
            if ok {
                d.vals = prove(&s.list, &g);
            }
        }
        "other-field" => {
            // a field nobody reads in the place of one that is read, for one validator or for all of them
            let per = [0u64, 1, 1, 2, 3, 4, 5, 6, 6, 6];
            let k = per[ctx.t.idx(per.len())];
            let other = if k == 1 { 1u64 } else { *ctx.t.pick(&[7, 7, 7, 1]) };
            let leaving: Vec<usize> = (0..nv).filter(|i| !forms[*i] && s.vals[*i].exit != FAR).collect();
            let i = ctx.t.idx(nv);
            let i = if leaving.is_empty() || ctx.t.chance(1, 3) { i } else { leaving[i % leaving.len()] };
            // one whose withdrawal credentials look like the second half of a key
            let posing = (0..nv).cycle().skip(i).take(nv).find(|i| !forms[*i] && s.vals[*i].key % 8 == 3);
            let i = if k == 1 { posing.unwrap_or(i) } else { i };
            let all = k != 1 && ctx.t.chance(1, 3);
            if k == 1 {
                let at = forms[..i].iter().filter(|x| !**x).count();
                let mut c = key(s.vals[i].key).pk.serialize();
                c[40] ^= 1;
                if let (Ok(p), true) = (PublicKey::deserialize(&c), at < d.keys.len()) {
                    d.keys[at] = p;
                }
            }
            let mut g = vec![];
            for v in 0..nv {
                let mut x = val_gindices(v, forms[v]);
                let at = (BASE + v as u64) * 8;
                let gone = if k < 2 { at * 2 + k } else { at + k };
                if (all || v == i) && x.contains(&gone) {
                    x.retain(|y| *y != gone);
                    x.push(at + other);
                    x.sort_by(|a, b| simwire::tree_order(*a, *b));
                }
                g.append(&mut x);
            }
            g.push(3);
            d.vals = prove(&s.list, &g);
        }
        "swap-validators" => {
            let (i, j) = (ctx.t.idx(nv), ctx.t.idx(nv));
            let mut trees: Vec<Node> = s.vals.iter().map(val_tree).collect();
            trees.swap(i, j);
            let mut vals = s.vals.clone();
            vals.swap(i, j);
            let list = Node::list(&trees, 40, nv as u64);
            let fo: Vec<bool> = vals.iter().map(|v| v.exit <= s.epoch).collect();
            d.vals = vals_wire(&list, &fo);
            d.keys = keys_of(&vals, &fo);
        }
        "swap-keys" => {
            let (i, j) = (ctx.t.idx(d.keys.len()), ctx.t.idx(d.keys.len()));
            d.keys.swap(i, j);
        }
        "edit-key" => {
            let i = ctx.t.idx(d.keys.len());
            let mut c = d.keys[i].serialize();
            let k = 1 + ctx.t.idx(46);
            // often in the half that lies in the second chunk
            let k = if ctx.t.chance(1, 2) { 32 + k % 15 } else { k };
            c[k] ^= 1 << ctx.t.below(8);
            if let Ok(p) = PublicKey::deserialize(&c) {
                d.keys[i] = p;
            }
        }
        "replace-key" => {
            let i = ctx.t.idx(d.keys.len());
            d.keys[i] = key(900_000 + ctx.t.below(100)).pk.clone();
        }
        "extra-keys" => match ctx.t.below(3) {
            0 => d.keys.push(key(900_000).pk.clone()),
            1 => drop(d.keys.pop()),
            _ => {
                let i = ctx.t.idx(d.keys.len());
                let k = d.keys[i].clone();
                d.keys.insert(i, k);
            }
        },
        "splice-other-witness" => {
            let e = match ctx.t.below(3) {
                0 => sc.w.j,
                1 => sc.w.f + 1,
                _ => sc.w.f.saturating_sub(1).max(1),
            };
            let o = sc.w.snap(e);
            let x = sc.w.witness(&o, vec![], BTreeMap::new(), &[]);
            let m = 1 + ctx.t.below(15);
            if m & 1 > 0 {
                d.block = x.block;
            }
            if m & 2 > 0 {
                d.state = x.state;
            }
            if m & 4 > 0 {
                d.vals = x.vals;
            }
            if m & 8 > 0 {
                d.keys = x.keys;
            }
        }
        "extra-state-values" => {
            if ctx.t.chance(1, 3) {
                // more of the block header than the state root
                let g = *ctx.t.pick(&[[8u64, 11], [9, 11], [11, 12]]);
                d.block = prove(&s.header, &g);
            } else {
                let mut g = STATE_GINDICES.to_vec();
                let e = *ctx.t.pick(&[64u64, 67 * 4 + 3, 94, 96, 169, 80, 98]);
                if !g.contains(&e) {
                    g.push(e);
                }
                g.sort_by(|a, b| simwire::tree_order(*a, *b));
                d.state = prove(&s.state, &g);
            }
        }
        "fewer-state-values" => {
            let mut g = STATE_GINDICES.to_vec();
            let k = ctx.t.idx(g.len());
            if ctx.t.chance(1, 2) {
                g.remove(k);
            } else {
                // a neighbour or a parent instead
                let e = g[k];
                let other = if ctx.t.chance(1, 2) { e ^ 1 } else { e / 2 };
                g.remove(k);
                if !g.iter().any(|x| *x == other || simwire::is_ancestor(other, *x) || simwire::is_ancestor(*x, other)) {
                    g.push(other);
                }
            }
            g.sort_by(|a, b| simwire::tree_order(*a, *b));
            d.state = prove(&s.state, &g);
        }
        "slot-of-other-block" => {
            let fin = sc.links.last().unwrap().0;
            let o = sc.w.snap(fin + 1 + ctx.t.below(3));
            let w = prove(&o.header, &[8]);
            match ctx.t.below(3) {
                0 => d.slots = vec![w],
                1 => d.slots.push(w),
                _ => d.slots.insert(0, w),
            }
        }
        "slot-other-field" => {
            let fin = sc.links.last().unwrap().0;
            let o = sc.w.snap(fin);
            let g: &[u64] = match ctx.t.below(5) {
                0 => &[9],
                1 => &[11],
                2 => &[8, 9],
                3 => &[4],
                _ => &[10],
            };
            let w = prove(&o.header, g);
            match ctx.t.below(3) {
                0 => d.slots = vec![w],
                1 => d.slots.push(w),
                _ => d.slots.insert(0, w),
            }
        }
        "registry-length" => {
            // the same records under another length, or fewer or more records under the true length
            let n2 = match ctx.t.below(3) {
                0 => nv as u64 - 1,
                1 => nv as u64 + 1,
                _ => nv as u64,
            };
            let trees: Vec<Node> = s.vals.iter().map(val_tree).collect();
            let list = if n2 == nv as u64 { s.list.clone() } else { Node::list(&trees, 40, n2) };
            let mut fo = forms.clone();
            if ctx.t.chance(1, 2) {
                fo.pop();
            } else if ctx.t.chance(1, 2) {
                fo.push(true);
                // nothing is there; the position holds a zero node
            }
            if fo.len() <= nv {
                d.vals = vals_wire(&list, &fo);
                d.keys = keys_of(&s.vals, &fo);
            } else {
                let mut g: Vec<u64> = fo.iter().enumerate().filter(|(i, _)| *i < nv).flat_map(|(i, x)| val_gindices(i, *x)).collect();
                g.push(BASE + nv as u64);
                g.push(3);
                d.vals = prove(&list, &g);
            }
        }
        "hint" => {
            let w = unsafe { &mut *pick_wire(ctx, d) };
            w.max_stack_depth = *ctx.t.pick(&[0usize, 1, 2, 1000, 1 << 20]);
        }
        _ => unreachable!(),
    }
}

/// C10: arbitrary lookahead data around the limits.
pub fn c10(ctx: &mut Ctx) -> RunResult {
    if ctx.t.chance(1, 12) {
        let w = World::<MainnetEthSpec>::new(ctx);
        lookahead(ctx, w)
    } else {
        let w = World::<MinimalEthSpec>::new(ctx);
        lookahead(ctx, w)
    }
}

fn lookahead<E: EthSpec>(ctx: &mut Ctx, mut w: World<E>) -> RunResult {
    if ctx.t.chance(1, 8) {
        w.f = 0;
        w.j = 1 + ctx.t.below(2);
        w.spec.electra_fork_epoch = Some(0.into());
        w.spec.fulu_fork_epoch = None;
        ctx.fault("trusted-genesis");
    } else if ctx.t.chance(1, 8) {
        w.f = 1;
        w.j = 2;
        w.spec.electra_fork_epoch = Some(0.into());
        w.spec.fulu_fork_epoch = None;
    }
    w.profile.n = 20 + ctx.t.below(40) as usize;
    // a churn limit a few validators large, so that the limit is within reach
    w.spec.min_per_epoch_churn_limit_electra = *ctx.t.pick(&[16 * ETH, ETH, 32 * ETH, 33 * ETH + 7, 64 * ETH, 128 * ETH, 1, 0]);
    w.spec.churn_limit_quotient = *ctx.t.pick(&[65536u64, 32, 16, 8, 1000]);
    if ctx.t.chance(1, 4) {
        // the block of the trusted checkpoint lies in an earlier epoch, in which others were active
        w.profile.skipped_boundary = true;
        w.profile.exited = w.profile.exited.max(25);
    }
    let r = ctx.t.fork();
    let mut sc = Scene::new(w, vec![], r);
    let s = sc.s.clone();
    let f = s.epoch;
    let n = sc.vals.len();
    let total: u64 = sc.vals.iter().filter(|v| v.act <= f && f < v.exit).map(|v| v.eff).sum::<u64>().max(ETH);
    let c = sc.w.spec.min_per_epoch_churn_limit_electra.max(total / sc.w.spec.churn_limit_quotient);
    let churn = 2 * (c - c % ETH);
    let e0 = sc.w.first_exit(&s);
    let first = match ctx.t.below(8) {
        0 => f.saturating_sub(1),
        1 => f,
        2 => f + 1 + ctx.t.below(10),
        _ => sc.w.j,
    };
    let mut patches: BTreeMap<u64, Patch> = BTreeMap::new();
    let count = 1 + ctx.t.below(4);
    let gap = ctx.t.chance(1, 5);
    let style = [0, 1, 2, 3, 4, 1][ctx.t.idx(6)];
    let mut known: BTreeMap<usize, u64> = BTreeMap::new();
    for k in 0..count {
        let pe = first + k * if gap { 2 } else { 1 };
        let mut p = Patch::default();
        if ctx.t.chance(2, 3) {
            p.exits = known.clone();
        }
        match style {
            0 => {}
            1 => {
                // fill the allowance up to the limit, or one step beyond
                let over = ctx.t.chance(1, 2);
                let mut x = e0;
                let mut have: u128 = 0;
                let mut ids: Vec<usize> = (0..n).filter(|i| sc.vals[*i].exit == FAR && !p.exits.contains_key(i)).collect();
                ctx.t.shuffle(&mut ids);
                for i in ids {
                    let room = churn as u128 * (x - e0 + 1) as u128;
                    let e = sc.vals[i].eff as u128;
                    if have + e > room {
                        if ctx.t.chance(1, 4) {
                            if over {
                                ctx.fault("one-exit-too-many");
                                p.exits.insert(i, x);
                            }
                            break;
                        }
                        x += 1 + ctx.t.below(2);
                        if have + e > churn as u128 * (x - e0 + 1) as u128 {
                            continue;
                        }
                    }
                    have += e;
                    p.exits.insert(i, x);
                    if x > e0 + 6 {
                        break;
                    }
                }
            }
            2 => {
                ctx.fault("too-early-exit");
                for _ in 0..1 + ctx.t.below(3) {
                    let i = ctx.t.idx(n);
                    p.exits.insert(i, *ctx.t.pick(&[e0 - 1, e0, f, f + 1, f + 4, f + 5, 0]));
                }
            }
            3 => {
                ctx.fault("changed-exit");
                for _ in 0..1 + ctx.t.below(3) {
                    let exiting: Vec<usize> = (0..n).filter(|i| sc.vals[*i].exit != FAR && sc.vals[*i].exit > f).collect();
                    let i = if exiting.is_empty() || ctx.t.chance(1, 3) { ctx.t.idx(n) } else { exiting[ctx.t.idx(exiting.len())] };
                    let x = match ctx.t.below(4) {
                        0 => sc.vals[i].exit,
                        1 => sc.vals[i].exit.wrapping_add(1),
                        2 => e0 + ctx.t.below(3),
                        _ => FAR,
                    };
                    p.exits.insert(i, x);
                }
            }
            _ => {
                ctx.fault("arbitrary-exits");
                for _ in 0..1 + ctx.t.below(5) {
                    let i = if ctx.t.chance(1, 10) { n + ctx.t.idx(3) } else { ctx.t.idx(n) };
                    let x = match ctx.t.below(5) {
                        0 => e0,
                        1 => e0 + ctx.t.below(4),
                        2 => f + ctx.t.below(12),
                        3 => FAR,
                        _ => FAR - 1,
                    };
                    p.exits.insert(i, x);
                }
            }
        }
        if ctx.t.chance(1, 6) {
            if let Some(i) = p.exits.keys().next().copied() {
                ctx.fault("moved-in-next-patch");
                let x = p.exits[&i];
                p.exits.insert(i, if ctx.t.chance(1, 2) { x.wrapping_add(1) } else { FAR });
            }
        }
        known = p.exits.clone();
        let m: H = sc.r.bytes();
        p.mixes.insert(sc.w.mix_index(pe), m);
        if ctx.t.chance(1, 4) {
            ctx.fault("extra-mix");
            p.mixes.insert(ctx.t.below(65536) as u32, m);
        }
        patches.insert(pe, p);
    }
    let d = sc.w.witness(&s, vec![], patches.clone(), &[]);
    let epochs: BTreeSet<u64> = (f..=f + 14).collect();
    let Ok(bytes) = d.encode() else { return Ok(()) };
    ctx.steps += 1;
    let (o, fx) = deliver::<E>(&bytes, &sc.w.spec, &sc.w.cfg, &epochs);
    let legal = exits_allowed(&sc.w, &s, &sc.vals, &patches);
    let changes: usize = patches.values().map(|p| p.exits.len()).sum();
    ctx.cover_of(&(legal.is_ok(), fx.is_some(), style, count, gap, changes, first as i64 - f as i64, legal.as_ref().err().map(|e| e.chars().filter(|c| !c.is_ascii_digit()).collect::<String>())));
    ctx.log(format!("trusted {f}, earliest exit {e0}, allowance {churn}, {changes} claimed exits: {legal:?}, reader {}", fx.is_some()));
    let Some(fx) = fx else {
        ctx.count("refused");
        // what a chain really does is accepted: no exits, or the same single exit told consistently
        if patches.keys().all(|e| *e >= f) && changes == 0 {
            simkit::violate!("empty-patch-refused", "lookahead data without exits was refused: {o:?}");
        }
        return Ok(());
    };
    ctx.count("accepted");
    if let Err(e) = legal {
        simkit::violate!("exits-beyond-limits", "accepted lookahead data although: {e} (trusted epoch {f}, earliest exit {e0}, allowance {churn})");
    }
    for t in &epochs {
        let p = patches.get(t);
        let want: Vec<(usize, ValidatorInfo)> = sc.w.active(&sc.vals, p, *t).into_iter().map(|i| (i, info(&sc.vals[i]))).collect();
        let got = &fx.active[t];
        if *got != want {
            let a: BTreeSet<usize> = got.iter().map(|x| x.0).collect();
            let b: BTreeSet<usize> = want.iter().map(|x| x.0).collect();
            simkit::violate!(
                "active-set",
                "active validators at {t}: added {:?}, missing {:?} compared with the trusted registry and the claimed exits",
                a.difference(&b).collect::<Vec<_>>(),
                b.difference(&a).collect::<Vec<_>>()
            );
        }
        // whatever was claimed, nobody is active who is not so by the trusted registry
        let plain: BTreeSet<usize> = sc.w.active(&sc.vals, None, *t).into_iter().collect();
        must!(got.iter().all(|x| plain.contains(&x.0)), "added-validator", "a claimed exit made a validator active at {t}");
    }
    must!(fx.pre.finalized_checkpoint() == Checkpoint::new(f.into(), s.root()), "trusted-state", "the trusted checkpoint changed");
    Ok(())
}
