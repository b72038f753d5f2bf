//! C01: a Byzantine prover that owns the witness, the transport and every really signed vote.
use crate::scene::*;
use crate::world::*;
use beacon_types::MinimalEthSpec;
use bls::AggregateSignature;
use simkit::{must, Ctx, RunResult};
use simtree::{Node, H};
use simwire::prove;
use ssz_types::BitList;
use std::collections::{BTreeMap, BTreeSet};
use z_core::{AttestationData, Checkpoint, Epoch, EthSpec, MainnetEthSpec};

const TRICKS: [&str; 22] = [
    "duplicate-votes",
    "relabel-target",
    "relabel-source",
    "unsigned-bits",
    "foreign-domain",
    "foreign-slot",
    "nonzero-index",
    "pre-electra-variant",
    "empty-signature",
    "swap-signatures",
    "stretch-bits",
    "hide-validators",
    "shorten-registry",
    "alter-witness",
    "reprove-altered-state",
    "claim-exits",
    "shuffle-order",
    "other-block-witness",
    "substitute-keys",
    "merge-groups",
    "relabel-slot",
    "replayed-signature",
];

pub fn c01(ctx: &mut Ctx) -> RunResult {
    match ctx.t.below(12) {
        0 => {
            let w = World::<MainnetEthSpec>::new(ctx);
            attack(ctx, w, None)
        }
        1 => {
            let (w, guest) = crate::nets::network_world(ctx);
            attack(ctx, w, Some(guest))
        }
        _ => {
            let w = World::<MinimalEthSpec>::new(ctx);
            attack(ctx, w, None)
        }
    }
}

fn attack<E: EthSpec>(ctx: &mut Ctx, w: World<E>, guest: Option<crate::nets::Net>) -> RunResult {
    let mut w = w;
    let exact = guest.is_none() && ctx.t.chance(1, 3);
    let links = plan(&w, ctx);
    let victim = ctx.t.idx(links.len());
    if exact {
        // a threshold that one particular set of voters meets exactly, or misses by one unit
        let s = w.snap(w.f);
        let vals = w.registry_at(&s, w.j);
        let act = w.active(&vals, None, links[victim].1);
        let mut r = w.rng(9, 0);
        let total = sum(&vals, act.iter().copied());
        let voters = choose(&mut r, &vals, &act, 3, 4, Turnout::Enough);
        let sup = sum(&vals, voters);
        if sup * 3 >= total * 2 && sup <= u64::MAX as u128 {
            let over = ctx.t.below(2);
            w.cfg.justification_threshold_factor = sup as u64 + over;
            w.cfg.justification_threshold_quotient = total as u64;
        }
    }
    if guest.is_none() && !exact && ctx.t.chance(1, 8) {
        // an operator asks for less than the protocol's two thirds: that must still be the least
        let (a, b) = *ctx.t.pick(&[(1, 2), (665, 1000), (3, 5), (1, 3), (0, 1)]);
        w.cfg.justification_threshold_factor = a;
        w.cfg.justification_threshold_quotient = b;
        ctx.fault("low-threshold");
    }
    let (a, b) = (w.cfg.justification_threshold_factor, w.cfg.justification_threshold_quotient);
    let r = ctx.t.fork();
    let mut sc = Scene::new(w, links.clone(), r);
    if ctx.t.chance(1, 3) {
        // the shuffling seeds are the prover's choice
        for (t, _) in sc.patches.clone() {
            let m: H = sc.r.bytes();
            let idx = sc.w.mix_index(t);
            sc.patches.get_mut(&t).unwrap().mixes.insert(idx, m);
        }
        ctx.fault("chosen-seed");
    }
    let mut tricks: Vec<usize> = vec![];
    for _ in 0..ctx.t.below(4) {
        tricks.push(ctx.t.idx(TRICKS.len()));
    }
    let has = |n: &str| tricks.iter().any(|t| TRICKS[*t] == n);
    // claimed exits must be known before votes are arranged in committees
    if has("claim-exits") {
        claim_exits(ctx, &mut sc);
    }
    // the adversary asks the verifier itself which validators it takes for active
    let targets = sc.targets();
    let probe = sc.w.witness(&sc.s, vec![], sc.patches.clone(), &[]);
    let seen = probe.encode().ok().and_then(|b| deliver::<E>(&b, &sc.w.spec, &sc.w.cfg, &targets).1);
    let mut atts: Vec<Vec<_>> = vec![];
    let mut everyone: BTreeMap<u64, BTreeSet<usize>> = BTreeMap::new();
    for (k, (src, tgt)) in links.iter().enumerate() {
        let truth: Vec<usize> = sc.active(*tgt);
        let view: Vec<usize> = match &seen {
            Some(f) => f.active[tgt].iter().map(|(i, _)| *i).filter(|i| *i < sc.vals.len()).collect(),
            None => truth.clone(),
        };
        if view != truth {
            ctx.count("view_differs_from_truth");
        }
        let how = if k == victim {
            *ctx.t.pick(&[Turnout::Short, Turnout::Short, Turnout::Short, Turnout::Half, Turnout::Enough])
        } else {
            *ctx.t.pick(&[Turnout::Full, Turnout::Enough])
        };
        let mut voters = choose(&mut sc.r, &sc.vals, &truth, a, b, how);
        // voters that must not count
        if k == victim && ctx.t.chance(2, 3) {
            voters.extend(view.iter().filter(|i| sc.vals[**i].slashed || !truth.contains(i)));
            ctx.fault("slashed-or-inactive-voters");
        }
        everyone.insert(*tgt, view.iter().copied().collect());
        let com = sc.w.committees(&view, &sc.seed(*tgt));
        let (s, t) = (sc.cp(*src), sc.cp(*tgt));
        let first = tgt * spe::<E>();
        let base = votes(&sc.w, &mut sc.r, &sc.vals, &com, first, s, t, &voters, &mut sc.ledger, &|_, _| {});
        atts.push(base);
        ctx.log(format!("link {src}->{tgt}: {} of {} vote ({how:?})", voters.len(), truth.len()));
    }
    let mut d = sc.w.witness(&sc.s, vec![], sc.patches.clone(), &[links.last().unwrap().0]);
    let (src, tgt) = links[victim];
    let com = sc.w.committees(&everyone[&tgt].iter().copied().collect::<Vec<_>>(), &sc.seed(tgt));
    let first = tgt * spe::<E>();
    let crowd: BTreeSet<usize> = everyone[&tgt].iter().copied().filter(|i| i % 8 != 7 || sc.r.below(2) == 0).collect();
    for k in &tricks {
        let name = TRICKS[*k];
        ctx.fault(name);
        let n = atts[victim].len();
        let (s, t) = (sc.cp(src), sc.cp(tgt));
        // votes of a crowd for something else, possibly relabelled afterwards
        let mut other = |sc: &mut Scene<E>, s2: Checkpoint, t2: Checkpoint, twist: &dyn Fn(&mut AttestationData, &mut H)| {
            let mut r = sc.r.clone();
            let v = votes(&sc.w, &mut r, &sc.vals, &com, first, s2, t2, &crowd, &mut sc.ledger, twist);
            sc.r = r;
            v
        };
        match name {
            "duplicate-votes" => {
                for _ in 0..1 + ctx.t.below(6) {
                    if n > 0 {
                        let x = atts[victim][ctx.t.idx(n)].clone();
                        atts[victim].push(x);
                    }
                }
            }
            "relabel-target" | "relabel-source" => {
                let (mut s2, mut t2) = (s, t);
                let alt = Checkpoint::new(Epoch::new(if ctx.t.chance(1, 2) { tgt } else { tgt + 1 }), sc.r.bytes::<32>().into());
                if name == "relabel-target" {
                    t2 = alt;
                } else {
                    s2 = if ctx.t.chance(1, 2) { Checkpoint::new(s.epoch(), alt.root()) } else { sc.cp(sc.w.f) };
                }
                let mut v = other(&mut sc, s2, t2, &|_, _| {});
                for x in &mut v {
                    x.data_mut().source = s.into();
                    x.data_mut().target = t.into();
                }
                atts[victim].extend(v);
            }
            "relabel-slot" => {
                // all votes moved to one slot's committees
                let alt = Checkpoint::new(Epoch::new(tgt), sc.r.bytes::<32>().into());
                let mut v = other(&mut sc, s, alt, &|_, _| {});
                for x in &mut v {
                    x.data_mut().slot = first.into();
                    x.data_mut().target = t.into();
                }
                atts[victim].extend(v);
            }
            "unsigned-bits" => {
                // claims voters who did not sign, instead of or next to the genuine aggregates
                let genuine = atts[victim].clone();
                let keep = ctx.t.below(3);
                let dense = ctx.t.chance(1, 2);
                for x in atts[victim].iter_mut() {
                    let Ok(e) = x.as_electra_mut() else { continue };
                    let m = e.aggregation_bits.len();
                    for i in 0..m {
                        if dense || sc.r.below(3) > 0 {
                            let _ = e.aggregation_bits.set(i, true);
                        }
                    }
                }
                if keep == 1 {
                    atts[victim].splice(0..0, genuine);
                } else if keep == 2 {
                    let claimed = std::mem::take(&mut atts[victim]);
                    for (g, c) in genuine.into_iter().zip(claimed) {
                        atts[victim].extend([g, c]);
                    }
                }
            }
            "replayed-signature" => {
                // genuine aggregates first, then other statements and other committees under the same signatures
                let com = sc.committees(tgt);
                let how = ctx.t.below(4);
                let mut more = vec![];
                for x in &atts[victim] {
                    let Ok(e) = x.as_electra() else { continue };
                    let mut dd = e.data;
                    match how {
                        0 => dd.slot = (first + sc.r.below(spe::<E>())).into(),
                        1 => dd.beacon_block_root = sc.r.bytes::<32>().into(),
                        2 => dd.slot = (first + (dd.slot.as_u64() + 1) % spe::<E>()).into(),
                        _ => {}
                    }
                    let cs = &com.0[(dd.slot.as_u64() % spe::<E>()) as usize];
                    let take: Vec<usize> = (0..cs.len()).collect();
                    let everyone: BTreeSet<usize> = cs.iter().flatten().copied().collect();
                    more.extend(aggregate::<E>(dd, cs, &take, &everyone, e.signature.clone()));
                }
                atts[victim].extend(more);
            }
            "foreign-domain" => {
                let sched = schedule(&sc.w.spec);
                let now = version_at(&sc.w.spec, tgt);
                let mut all: Vec<H> = sched.iter().map(|(_, v)| domain(1, *v, &sc.w.gvr)).filter(|x| *x != domain(1, now, &sc.w.gvr)).collect();
                all.push(domain(1, now, &[7; 32]));
                all.push(domain(1, now, &[0; 32]));
                all.push(domain(0, now, &sc.w.gvr));
                all.push(domain(6, now, &sc.w.gvr));
                let pick = *ctx.t.pick(&all);
                let v = other(&mut sc, s, t, &|_, dom| *dom = pick);
                atts[victim].extend(v);
            }
            "foreign-slot" => {
                let delta = *ctx.t.pick(&[spe::<E>(), 1, 2 * spe::<E>()]);
                let up = ctx.t.chance(1, 2);
                let v = other(&mut sc, s, t, &|d, _| {
                    let x = d.slot.as_u64();
                    d.slot = if up { x + delta } else { x.saturating_sub(delta) }.into();
                });
                atts[victim].extend(v);
            }
            "nonzero-index" => {
                let i = 1 + ctx.t.below(3);
                let v = other(&mut sc, s, t, &|d, _| d.index = i);
                atts[victim].extend(v);
            }
            "pre-electra-variant" => {
                let v: Vec<_> = atts[victim].iter().filter_map(to_base).collect();
                atts[victim].extend(v);
            }
            "empty-signature" => {
                let mut v = other(&mut sc, s, Checkpoint::new(t.epoch(), Default::default()), &|_, _| {});
                for x in &mut v {
                    x.data_mut().target = t.into();
                    let Ok(e) = x.as_electra_mut() else { continue };
                    e.signature = AggregateSignature::infinity();
                    if sc.r.below(2) == 0 {
                        e.aggregation_bits = BitList::with_capacity(0).unwrap();
                        e.committee_bits = Default::default();
                    }
                }
                atts[victim].extend(v);
            }
            "swap-signatures" => {
                if n > 1 {
                    for _ in 0..3 {
                        let (i, k) = (ctx.t.idx(n), ctx.t.idx(n));
                        let sig = atts[victim][k].signature().clone();
                        if let Ok(e) = atts[victim][i].as_electra_mut() {
                            e.signature = sig;
                        }
                    }
                }
            }
            "stretch-bits" => {
                for x in atts[victim].iter_mut() {
                    let Ok(e) = x.as_electra_mut() else { continue };
                    let m = e.aggregation_bits.len();
                    let extra = 1 + sc.r.idx(8);
                    if let Ok(mut nb) = BitList::with_capacity(m + extra) {
                        for i in 0..m + extra {
                            let bit = if i < m { e.aggregation_bits.get(i).unwrap_or(false) } else { true };
                            let _ = nb.set(i, bit);
                        }
                        if sc.r.below(2) == 0 {
                            e.aggregation_bits = nb;
                        }
                    }
                    if sc.r.below(2) == 0 {
                        let _ = e.committee_bits.set(sc.r.idx(e.committee_bits.len()), true);
                    }
                }
            }
            "hide-validators" | "shorten-registry" => {
                // a true proof that shows less than it must: non-voters left out
                let signed: BTreeSet<usize> = sc.ledger.iter().flat_map(|l| l.signers.iter().copied()).collect();
                let nvals = sc.s.vals.len();
                let mut forms: Vec<bool> = sc.s.vals.iter().map(|v| v.exit <= sc.s.epoch).collect();
                let keep_all = ctx.t.chance(1, 2);
                if name == "hide-validators" {
                    for i in 0..nvals {
                        if !signed.contains(&i) && (keep_all || sc.r.below(2) == 0) {
                            forms[i] = true;
                        }
                    }
                } else {
                    forms.truncate(nvals - 1 - ctx.t.idx(nvals / 2));
                }
                d.vals = vals_wire(&sc.s.list, &forms);
                d.keys = sc.s.vals.iter().zip(&forms).filter(|(_, x)| !**x).map(|(v, _)| key(v.key).pk.clone()).collect();
            }
            "alter-witness" => {
                let part = ctx.t.below(3);
                let wire = match part {
                    0 => &mut d.vals,
                    1 => &mut d.state,
                    _ => &mut d.block,
                };
                for _ in 0..1 + ctx.t.below(4) {
                    let k = sc.r.idx(wire.data.len() / 32);
                    let x = match sc.r.below(3) {
                        0 => u64_chunk(sc.r.below(3)),
                        1 => u64_chunk(sc.r.below(64) * ETH),
                        _ => sc.r.bytes(),
                    };
                    wire.data[k * 32..k * 32 + 32].copy_from_slice(&x);
                }
            }
            "reprove-altered-state" => {
                // consistent proofs of a registry in which the voters own everything
                let signed: BTreeSet<usize> = sc.ledger.iter().flat_map(|l| l.signers.iter().copied()).collect();
                let mut vals = sc.s.vals.clone();
                for (i, v) in vals.iter_mut().enumerate() {
                    if !signed.contains(&i) {
                        match ctx.t.below(3) {
                            0 => v.eff = ETH,
                            1 => v.exit = v.exit.min(sc.s.epoch),
                            _ => v.slashed = false,
                        }
                    }
                }
                let fake = sc.w.build_snap(sc.s.epoch, sc.s.slot, sc.s.fin, vals, sc.s.earliest_exit, sc.s.earliest_consolidation);
                let forms: Vec<bool> = fake.vals.iter().map(|v| v.exit <= sc.s.epoch).collect();
                d.vals = vals_wire(&fake.list, &forms);
                d.keys = fake.vals.iter().zip(&forms).filter(|(_, x)| !**x).map(|(v, _)| key(v.key).pk.clone()).collect();
                let up = ctx.t.below(3);
                if up > 0 {
                    d.state = prove(&fake.state, &STATE_GINDICES);
                }
                if up > 1 {
                    d.block = prove(&fake.header, &[11]);
                }
            }
            "claim-exits" => {}
            "shuffle-order" => {
                let mut v = std::mem::take(&mut atts[victim]);
                ctx.t.shuffle(&mut v);
                atts[victim] = v;
            }
            "other-block-witness" => {
                let e = sc.w.f + 1 + ctx.t.below(3);
                let o = sc.w.snap(e);
                let x = sc.w.witness(&o, vec![], BTreeMap::new(), &[]);
                let m = ctx.t.below(7) + 1;
                if m & 1 > 0 {
                    d.block = x.block;
                }
                if m & 2 > 0 {
                    d.state = x.state;
                }
                if m & 4 > 0 {
                    d.vals = x.vals;
                    d.keys = x.keys;
                }
            }
            "substitute-keys" => {
                // non-voters' keys replaced by keys the adversary controls
                let signed: BTreeSet<usize> = sc.ledger.iter().flat_map(|l| l.signers.iter().copied()).collect();
                let shown: Vec<usize> = sc.s.vals.iter().enumerate().filter(|(_, v)| v.exit > sc.s.epoch).map(|(i, _)| i).collect();
                let mut evil: BTreeMap<usize, u64> = BTreeMap::new();
                for (pos, i) in shown.iter().enumerate() {
                    if !signed.contains(i) && pos < d.keys.len() {
                        let k = 1_000_000 + *i as u64;
                        d.keys[pos] = key(k).pk.clone();
                        evil.insert(*i, k);
                    }
                }
                let dom = sc.w.domain_at(tgt);
                for (i, cs) in com.0.iter().enumerate() {
                    let data = sc.w.data(first + i as u64, 5, s, t);
                    let who: BTreeSet<usize> = cs.iter().flatten().copied().filter(|v| evil.contains_key(v)).collect();
                    let mut fake = sc.vals.clone();
                    for (v, k) in &evil {
                        fake[*v].key = *k;
                    }
                    let sig = sc.w.sign(&data, &dom, who.iter().copied(), &fake);
                    let all: Vec<usize> = (0..cs.len()).collect();
                    atts[victim].extend(aggregate::<E>(data, cs, &all, &who, sig));
                }
            }
            "merge-groups" => {
                if links.len() > 1 {
                    // votes of another step counted for this one
                    let k = (victim + 1) % links.len();
                    let mut v = atts[k].clone();
                    for x in &mut v {
                        if sc.r.below(2) == 0 {
                            x.data_mut().source = s.into();
                            x.data_mut().target = t.into();
                        }
                    }
                    atts[victim].extend(v);
                }
            }
            _ => unreachable!(),
        }
    }
    d.atts = atts.into_iter().flatten().collect();
    if has("merge-groups") && ctx.t.chance(1, 2) {
        let k = ctx.t.idx(d.atts.len().max(1));
        d.atts.rotate_left(k);
    }
    let Ok(bytes) = d.encode() else {
        ctx.count("undecodable");
        return Ok(());
    };
    ctx.steps += 1;
    ctx.sim_ms += (links.last().unwrap().1 - sc.w.f) * spe::<E>() * sc.w.spec.seconds_per_slot * 1000;
    let o = match &guest {
        None => deliver::<E>(&bytes, &sc.w.spec, &sc.w.cfg, &targets).0,
        Some(net) => crate::nets::run_guest(net, &bytes),
    };
    judge(ctx, &sc, &d, &o, &tricks)
}

fn claim_exits<E: EthSpec>(ctx: &mut Ctx, sc: &mut Scene<E>) {
    let s = sc.s.clone();
    let e0 = sc.w.first_exit(&s);
    let how = ctx.t.below(4);
    let frac = 1 + ctx.t.below(4);
    for (t, p) in sc.patches.iter_mut() {
        for i in 0..s.vals.len() {
            if sc.r.below(4) < frac {
                let x = match how {
                    0 => e0 + sc.r.below(4),
                    1 => *t,
                    2 => s.epoch + sc.r.below(8),
                    _ => s.vals[i].exit.saturating_sub(sc.r.below(3)),
                };
                if s.vals[i].exit > s.epoch {
                    p.exits.insert(i, x);
                }
            }
        }
    }
}

fn judge<E: EthSpec>(ctx: &mut Ctx, sc: &Scene<E>, d: &Draft<E>, o: &Outcome, tricks: &[usize]) -> RunResult {
    let gs = groups(&d.atts);
    let (a, b) = (sc.w.cfg.justification_threshold_factor, sc.w.cfg.justification_threshold_quotient);
    let stage = match o {
        Outcome::Reject { at, why } => {
            ctx.log(format!("rejected at {at}: {}", why.chars().take(100).collect::<String>()));
            *at
        }
        Outcome::Accept { .. } => {
            ctx.log("accepted");
            "accept"
        }
    };
    ctx.count(&format!("outcome_{stage}"));
    ctx.cover_of(&(stage, tricks.to_vec(), gs.len(), sc.links.len()));
    let Outcome::Accept { post, .. } = o else { return Ok(()) };
    must!(
        d.cs.1.root() == sc.s.root(),
        "unknown-trusted-block",
        "accepted although the trusted block root belongs to no known block"
    );
    let vals = sc.w.registry_at(&sc.s, d.cs.0.epoch().as_u64());
    let legal = exits_allowed(&sc.w, &sc.s, &vals, &d.patches);
    for (s, t) in &gs {
        let te = t.epoch().as_u64();
        let patch = d.patches.get(&te).filter(|_| legal.is_ok());
        let act = sc.w.active(&vals, patch, te);
        let (sup, total) = sc.support(&vals, &act, s, t);
        ctx.count("steps_checked");
        must!(
            reaches(sup, total, a, b) && reaches(sup, total, 2, 3),
            "unsupported-link",
            "accepted a state with justified epoch {} and finalized epoch {}: link {}->{te} has {sup} of {total} gwei behind it, needs {a}/{b} and 2/3 (tricks {:?}, exits {:?})",
            post.current_justified_checkpoint().epoch(),
            post.finalized_checkpoint().epoch(),
            s.epoch(),
            tricks.iter().map(|k| TRICKS[*k]).collect::<Vec<_>>(),
            legal
        );
    }
    must!(
        gs.iter().any(|(_, t)| *t == post.current_justified_checkpoint()),
        "justified-without-votes",
        "epoch {} is justified but no vote names it as target",
        post.current_justified_checkpoint().epoch()
    );
    must!(
        gs.iter().any(|(s, _)| *s == post.finalized_checkpoint()),
        "finalized-without-votes",
        "epoch {} is finalized but no vote names it as source",
        post.finalized_checkpoint().epoch()
    );
    let _ = Node::Zero(0);
    Ok(())
}
