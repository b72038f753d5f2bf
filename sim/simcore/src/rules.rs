//! The reference machine for link sequences, and the checks built on it: C03, C15 and C16.
use crate::nets::Net;
use crate::scene::*;
use crate::world::*;
use beacon_types::{ForkName, MinimalEthSpec};
use simkit::{must, Ctx, RunResult};
use simtree::{Node, H};
use simwire::prove;
use std::collections::{BTreeMap, BTreeSet};
use z_core::{Attestation, AttestationData, Checkpoint, Epoch, EthSpec, MainnetEthSpec};

/// The validators an attestation names, by the committees of its target epoch.
pub fn signers<E: EthSpec>(a: &Attestation<E>, com: &Committees) -> BTreeSet<usize> {
    let mut out = BTreeSet::new();
    let Ok(e) = a.as_electra() else { return out };
    let cs = &com.0[(e.data.slot.as_u64() % spe::<E>()) as usize];
    let mut k = 0;
    for (c, members) in cs.iter().enumerate() {
        if !e.committee_bits.get(c).unwrap_or(false) {
            continue;
        }
        for v in members {
            if e.aggregation_bits.get(k).unwrap_or(false) {
                out.insert(*v);
            }
            k += 1;
        }
    }
    out
}

/// What the documents say about an input made of genuine data and genuine votes.
pub fn reference<E: EthSpec>(sc: &Scene<E>, d: &Draft<E>, slots: &BTreeMap<alloy_primitives::B256, u64>) -> Result<((Checkpoint, Checkpoint), u64), String> {
    let (mut j, f0) = d.cs;
    let mut f = f0;
    if j.epoch() <= f.epoch() {
        return Err("unordered state".into());
    }
    let cfg = &sc.w.cfg;
    let vals = sc.w.registry_at(&sc.s, j.epoch().as_u64());
    let mut i = 0;
    while i < d.atts.len() {
        let (s, t): (Checkpoint, Checkpoint) = (d.atts[i].data().source.into(), d.atts[i].data().target.into());
        let mut n = i;
        while n < d.atts.len() && Checkpoint::from(d.atts[n].data().source) == s && Checkpoint::from(d.atts[n].data().target) == t {
            n += 1;
        }
        let te = t.epoch().as_u64();
        if f != f0 {
            return Err("step after the finalization".into());
        }
        let fork = ForkName::list_all()[fork_at(&sc.w.spec, te)];
        if fork < cfg.min_version || fork > cfg.max_version {
            return Err(format!("target {te} in unsupported fork {fork:?}"));
        }
        if te.saturating_sub(f0.epoch().as_u64()) > cfg.epoch_lookahead_limit.as_u64() {
            return Err(format!("target {te} too far"));
        }
        let Some(p) = d.patches.get(&te) else { return Err(format!("no seed for {te}")) };
        if s != j || te <= j.epoch().as_u64() {
            return Err("not a link from the justified checkpoint".into());
        }
        let act = sc.w.active(&vals, Some(p), te);
        let com = sc.w.committees(&act, &sc.seed(te));
        let who: BTreeSet<usize> = d.atts[i..n].iter().flat_map(|a| signers(a, &com)).filter(|v| !vals[*v].slashed).collect();
        let (sup, total) = (sum(&vals, who), sum(&vals, act));
        if !reaches(sup, total, cfg.justification_threshold_factor, cfg.justification_threshold_quotient) || sup * 3 < total * 2 {
            return Err(format!("{sup} of {total} for {te}"));
        }
        if te == s.epoch().as_u64() + 1 {
            f = s;
        }
        j = t;
        i = n;
    }
    if f == f0 {
        return Err("nothing finalized".into());
    }
    let Some(slot) = slots.get(&f.root()) else { return Err("no slot proof".into()) };
    Ok(((j, f), *slot))
}

pub fn compare(ctx: &mut Ctx, key: &str, want: &Result<((Checkpoint, Checkpoint), u64), String>, got: &Outcome) -> RunResult {
    match (want, got) {
        (Err(_), Outcome::Reject { .. }) => ctx.count("agree_reject"),
        (Ok(((j, f), slot)), Outcome::Accept { post, slot: s }) => {
            ctx.count("agree_accept");
            must!(
                post.current_justified_checkpoint() == *j && post.finalized_checkpoint() == *f,
                &format!("{key}-state"),
                "accepted with justified {} finalized {}, should be {j} and {f}",
                post.current_justified_checkpoint(),
                post.finalized_checkpoint()
            );
            must!(s == slot, &format!("{key}-slot"), "finalized slot {s}, should be {slot}");
        }
        (Ok(w), Outcome::Reject { at, why }) => {
            simkit::violate!(&format!("{key}-refused"), "valid input refused at {at} ({why}), should reach {w:?}")
        }
        (Err(e), Outcome::Accept { post, .. }) => {
            simkit::violate!(
                &format!("{key}-accepted"),
                "accepted justified {} finalized {}, although: {e}",
                post.current_justified_checkpoint(),
                post.finalized_checkpoint()
            )
        }
    }
    Ok(())
}

pub fn tidy<E: EthSpec>(w: &mut World<E>) {
    // everybody may vote and counts
    w.profile.slashed = 0;
    w.profile.exited = 0;
    w.profile.leaving = 0;
}

struct Blocks<E: EthSpec> {
    links: Vec<(Checkpoint, Checkpoint)>,
    atts: Vec<Vec<Attestation<E>>>,
    headers: BTreeMap<alloy_primitives::B256, Node>,
}

fn header_slot(n: &Node) -> u64 {
    u64::from_le_bytes(n.at(8).unwrap().root()[..8].try_into().unwrap())
}

/// C03: sequences of fully supported links in any order, with splices, against the reference machine.
pub fn c03(ctx: &mut Ctx) -> RunResult {
    if ctx.t.chance(1, 10) {
        let w = World::<MainnetEthSpec>::new(ctx);
        sequences(ctx, w)
    } else {
        let w = World::<MinimalEthSpec>::new(ctx);
        sequences(ctx, w)
    }
}

fn sequences<E: EthSpec>(ctx: &mut Ctx, mut w: World<E>) -> RunResult {
    tidy(&mut w);
    w.profile.n = w.profile.n.min(60);
    let l = w.cfg.epoch_lookahead_limit.as_u64();
    let (f, j) = (w.f, w.j);
    let r = ctx.t.fork();
    let mut sc = Scene::new(w, vec![], r);
    let mut b = Blocks::<E> { links: vec![], atts: vec![], headers: BTreeMap::new() };
    for e in f..=f + l + 3 {
        b.headers.insert(sc.cp(e).root(), sc.w.snap(e).header.clone());
    }
    let alt = |b: &mut Blocks<E>, sc: &mut Scene<E>, e: u64| {
        let h = Node::merkleize(&[Node::u64(e * spe::<E>() - sc.r.below(2)), Node::u64(1), Node::leaf(sc.r.bytes()), Node::leaf(sc.r.bytes()), Node::leaf(sc.r.bytes())], 3);
        let c = Checkpoint::new(Epoch::new(e), h.root().into());
        b.headers.insert(c.root(), h);
        c
    };
    let mut cur = sc.cp(j);
    let start = cur;
    let mut chain = vec![cur];
    let wild = ctx.t.chance(1, 2);
    for _ in 0..ctx.t.below(6) {
        let e = cur.epoch().as_u64();
        let (s, t) = match if wild { ctx.t.below(10) } else { 0 } {
            5 => {
                ctx.fault("stale-source");
                let s = *ctx.t.pick(&chain);
                (s, sc.cp(e + 1 + ctx.t.below(2)))
            }
            6 => {
                ctx.fault("alternative-target");
                let x = e + 1 + ctx.t.below(3);
                (cur, alt(&mut b, &mut sc, x))
            }
            7 => {
                ctx.fault("backward-link");
                let x = (f + ctx.t.below(e + 1 - f)).max(1);
                let c = if ctx.t.chance(1, 2) { sc.cp(x) } else { alt(&mut b, &mut sc, x) };
                (cur, c)
            }
            8 => {
                ctx.fault("alternative-source");
                let s = alt(&mut b, &mut sc, e);
                (s, sc.cp(e + 1))
            }
            9 => {
                ctx.fault("link-from-finalized");
                (sc.cp(f), sc.cp(e + 1))
            }
            _ => (cur, sc.cp(e + if ctx.t.chance(1, 2) { 2 + ctx.t.below(2) } else { 1 })),
        };
        b.links.push((s, t));
        if t.epoch().as_u64() > e || ctx.t.chance(1, 3) {
            cur = t;
            chain.push(t);
        }
        if !wild && t.epoch().as_u64() == s.epoch().as_u64() + 1 {
            break;
        }
        if cur.epoch().as_u64() > f + l + 2 {
            break;
        }
    }
    if b.links.is_empty() && ctx.t.chance(3, 4) {
        b.links.push((start, sc.cp(j + 1)));
    }
    if wild && b.links.len() > 1 {
        match ctx.t.below(5) {
            1 => {
                ctx.fault("reordered-links");
                let (x, y) = (ctx.t.idx(b.links.len()), ctx.t.idx(b.links.len()));
                b.links.swap(x, y);
            }
            2 => {
                ctx.fault("dropped-link");
                let x = ctx.t.idx(b.links.len());
                b.links.remove(x);
            }
            3 => {
                ctx.fault("repeated-link");
                let x = b.links[ctx.t.idx(b.links.len())];
                let y = ctx.t.idx(b.links.len() + 1);
                b.links.insert(y, x);
            }
            _ => {}
        }
    }
    for (_, t) in &b.links {
        let te = t.epoch().as_u64();
        if te >= f {
            let p = sc.w.honest_patch(te);
            sc.patches.insert(te, p);
        }
    }
    for (s, t) in b.links.clone() {
        let act: BTreeSet<usize> = sc.active(t.epoch().as_u64()).into_iter().collect();
        let v = sc.cast(s, t, &act);
        b.atts.push(v);
    }
    let mut atts: Vec<Attestation<E>> = b.atts.concat();
    if wild {
        match ctx.t.below(6) {
            1 if !atts.is_empty() => {
                ctx.fault("lost-votes");
                for _ in 0..1 + ctx.t.below(3) {
                    let k = ctx.t.idx(atts.len());
                    atts.remove(k);
                    if atts.is_empty() {
                        break;
                    }
                }
            }
            2 if atts.len() > 1 => {
                ctx.fault("misplaced-votes");
                let (x, y) = (ctx.t.idx(atts.len()), ctx.t.idx(atts.len()));
                let a = atts.remove(x);
                atts.insert(y.min(atts.len()), a);
            }
            3 if !atts.is_empty() => {
                ctx.fault("repeated-votes");
                let x = atts[ctx.t.idx(atts.len())].clone();
                atts.push(x);
            }
            _ => {}
        }
    }
    let mut slots = BTreeMap::new();
    let mut proofs = vec![];
    for (s, _) in &b.links {
        if wild && ctx.t.chance(1, 12) {
            ctx.fault("lost-slot-proof");
            continue;
        }
        if let Some(h) = b.headers.get(&s.root()) {
            slots.insert(s.root(), header_slot(h));
            proofs.push(prove(h, &[8]));
        }
    }
    if wild && ctx.t.chance(1, 2) {
        // more than is needed: the trusted block and others
        ctx.fault("extra-slot-proofs");
        for e in f..=f + 2 {
            let h = sc.w.snap(e).header.clone();
            slots.insert(sc.cp(e).root(), header_slot(&h));
            proofs.push(prove(&h, &[8]));
        }
    }
    let patches = sc.patches.clone();
    let mut d = sc.w.witness(&sc.s, atts, patches, &[]);
    d.slots = proofs;
    if wild && ctx.t.chance(1, 10) {
        ctx.fault("altered-start");
        let e = match ctx.t.below(4) {
            0 => f,
            1 => f.saturating_sub(1),
            2 => j + 1,
            _ => j,
        };
        d.cs.0 = if ctx.t.chance(1, 2) { sc.cp(e) } else { alt(&mut b, &mut sc, e.max(1)) };
    }
    let Ok(bytes) = d.encode() else { return Ok(()) };
    let want = reference(&sc, &d, &slots);
    let got = deliver::<E>(&bytes, &sc.w.spec, &sc.w.cfg, &BTreeSet::new()).0;
    ctx.steps += groups(&d.atts).len() as u64;
    let shape: Vec<(i64, i64)> = groups(&d.atts).iter().map(|(s, t)| (s.epoch().as_u64() as i64 - f as i64, t.epoch().as_u64() as i64 - f as i64)).collect();
    ctx.log(format!("start ({j},{f}), links {shape:?} relative to the trusted epoch: {want:?}"));
    ctx.cover_of(&(&shape, j - f, l, want.is_ok()));
    if let Outcome::Accept { post, .. } = &got {
        must!(
            post.finalized_checkpoint().epoch() < post.current_justified_checkpoint().epoch()
                && post.finalized_checkpoint().epoch() >= d.cs.1.epoch()
                && post.current_justified_checkpoint().epoch() >= d.cs.0.epoch(),
            "unordered-state",
            "accepted state is not ordered: {post:?}"
        );
    }
    compare(ctx, "sequence", &want, &got)
}

/// C16: distances and forks at and around the configured limits.
pub fn c16(ctx: &mut Ctx) -> RunResult {
    match ctx.t.below(10) {
        0 => {
            let w = World::<MainnetEthSpec>::new(ctx);
            limits(ctx, w, None)
        }
        1 => {
            // the limits the shipped guests are built with
            let net = *ctx.t.pick(&[Net::Mainnet, Net::Sepolia]);
            let mut w = crate::nets::world_of(ctx, net);
            if ctx.t.chance(1, 3) {
                let electra = net.forks()[5].0;
                w.f = electra.saturating_sub(1 + ctx.t.below(5));
            }
            limits(ctx, w, Some(net))
        }
        _ => {
            let w = World::<MinimalEthSpec>::new(ctx);
            limits(ctx, w, None)
        }
    }
}

fn limits<E: EthSpec>(ctx: &mut Ctx, mut w: World<E>, net: Option<Net>) -> RunResult {
    tidy(&mut w);
    w.profile.limit(48);
    let mode = if net.is_some() { 2 } else { ctx.t.below(2) };
    // window
    let mut shipped = None;
    let l = if mode == 2 {
        4
    } else if mode == 0 {
        *ctx.t.pick(&[4u64, 2, 3, 5, 6, 8, 9, 16, 33, 1000, 1 << 40, u64::MAX - 1, u64::MAX, 0, 1])
    } else {
        4 + ctx.t.below(12)
    };
    w.cfg.epoch_lookahead_limit = Epoch::new(l);
    let f = w.f;
    w.j = f + 1 + ctx.t.below(l.saturating_sub(2).min(6) + 1);
    let j = w.j;
    // ends just inside, just outside, or anywhere
    let end = match ctx.t.below(4) {
        0 => f.saturating_add(l),
        1 => f.saturating_add(l).saturating_add(1),
        2 => f.saturating_add(l).saturating_add(2 + ctx.t.below(3)),
        _ => j + 1 + ctx.t.below(8),
    }
    .min(1 << 55)
    .max(j + 1);
    let mut links = vec![];
    if end > j + 1 {
        if end == j + 2 {
            // no room for a skip: finalize at once and end earlier
            if ctx.t.chance(1, 2) {
                links.push((j, end));
            } else {
                links.push((j, j + 1));
            }
        } else {
            links.push((j, end - 1));
            links.push((end - 1, end));
            if ctx.t.chance(1, 4) {
                // the last target alone is beyond, without being needed for the finalization
                links = vec![(j, j + 1)];
            }
        }
    } else {
        links.push((j, j + 1));
    }
    // forks
    let all = ForkName::list_all();
    if mode == 1 {
        let (mut lo, mut hi) = (ctx.t.below(3), ctx.t.below(3));
        if ctx.t.chance(1, 2) {
            lo = 1;
            hi = 1;
        }
        w.cfg.min_version = all[4 + lo as usize];
        w.cfg.max_version = all[5 + hi as usize];
        if ctx.t.chance(1, 5) {
            // the shipped configuration on a chain whose next fork is already scheduled
            let net = *ctx.t.pick(&[Net::Mainnet, Net::Sepolia]);
            w.cfg = net.config();
            shipped = Some(net.code_config());
            ctx.fault("shipped-versions");
        }
        let at = |ctx: &mut Ctx, from: u64| match ctx.t.below(4) {
            0 => from,
            1 => from.max(end - ctx.t.below(3).min(end)),
            2 => from.max(links[0].1 - ctx.t.below(2).min(links[0].1)),
            _ => from + ctx.t.below(12),
        };
        let from = if ctx.t.chance(1, 2) { 0 } else { f };
        let e = at(ctx, from);
        w.spec.electra_fork_epoch = Some(Epoch::new(e));
        let e2 = at(ctx, e);
        w.spec.fulu_fork_epoch = if ctx.t.chance(1, 4) { None } else { Some(Epoch::new(e2)) };
        let e3 = at(ctx, e2);
        w.spec.gloas_fork_epoch = if w.spec.fulu_fork_epoch.is_none() || ctx.t.chance(1, 3) { None } else { Some(Epoch::new(e3)) };
        ctx.fault("fork-boundary");
    } else if mode == 2 {
        ctx.fault("shipped-limits");
    } else {
        w.spec.fulu_fork_epoch = None;
        w.spec.electra_fork_epoch = Some(Epoch::new(0));
        ctx.fault("window-boundary");
    }
    // checkpoints far away have no snapshots; only their roots matter, except for the finalized one
    let r = ctx.t.fork();
    let fin = links.last().unwrap().0;
    let mut sc = Scene::new(w, links.clone(), r);
    let mut atts = vec![];
    let cut = ctx.t.chance(1, 10);
    for (k, (s, t)) in links.iter().enumerate() {
        let (s, t) = (sc.cp(*s), sc.cp(*t));
        let mut act: BTreeSet<usize> = sc.active(t.epoch().as_u64()).into_iter().collect();
        if cut && k == 0 {
            act.retain(|i| i % 2 == 0);
        }
        atts.extend(sc.cast(s, t, &act));
    }
    let d = sc.w.witness(&sc.s, atts, sc.patches.clone(), &[fin]);
    let slots: BTreeMap<alloy_primitives::B256, u64> = [(sc.cp(fin).root(), sc.w.snap(fin).slot)].into();
    let Ok(bytes) = d.encode() else { return Ok(()) };
    let want = reference(&sc, &d, &slots);
    let got = match net {
        Some(net) => crate::nets::run_guest(&net, &bytes),
        None => deliver::<E>(&bytes, &sc.w.spec, shipped.as_ref().unwrap_or(&sc.w.cfg), &BTreeSet::new()).0,
    };
    ctx.steps += links.len() as u64;
    ctx.log(format!(
        "limit {l}, trusted {f}, links {links:?}, versions {:?}..{:?}, forks {:?}: {want:?}",
        sc.w.cfg.min_version,
        sc.w.cfg.max_version,
        schedule(&sc.w.spec)
    ));
    let forks: Vec<usize> = links.iter().map(|(_, t)| fork_at(&sc.w.spec, *t)).collect();
    ctx.cover_of(&(mode, l, end - f, j - f, forks, sc.w.cfg.min_version as u64, sc.w.cfg.max_version as u64, want.is_ok()));
    if want.is_ok() && end - f == l {
        ctx.count("accepted_at_exact_limit");
    }
    compare(ctx, "limit", &want, &got)
}

const WRONG: [&str; 12] = [
    "fork-version",
    "other-side-of-transition",
    "genesis-root",
    "domain-type",
    "slot-before-epoch",
    "slot-after-epoch",
    "slot-far",
    "index",
    "base-variant",
    "target-epoch-domain",
    "no-domain",
    "other-target",
];

/// C15: votes that are right but for one dimension of their domain.
pub fn c15(ctx: &mut Ctx) -> RunResult {
    match ctx.t.below(8) {
        0 => networks(ctx),
        1 => {
            let net = *ctx.t.pick(&[Net::Mainnet, Net::Sepolia]);
            let w = crate::nets::world_of(ctx, net);
            replays(ctx, w, Some(net))
        }
        2 => state_fork(ctx),
        3 => {
            let w = World::<MainnetEthSpec>::new(ctx);
            replays(ctx, w, None)
        }
        _ => {
            let w = World::<MinimalEthSpec>::new(ctx);
            replays(ctx, w, None)
        }
    }
}

fn near_transition<E: EthSpec>(ctx: &mut Ctx, w: &mut World<E>) {
    // a fork transition somewhere around the targets
    w.spec.fulu_fork_epoch = Some(Epoch::new(w.f + ctx.t.below(6)));
    if w.spec.electra_fork_epoch > w.spec.fulu_fork_epoch {
        w.spec.electra_fork_epoch = Some(Epoch::new(w.f));
    }
}

fn replays<E: EthSpec>(ctx: &mut Ctx, mut w: World<E>, net: Option<Net>) -> RunResult {
    w.profile.limit(60);
    if net.is_none() {
        near_transition(ctx, &mut w);
    }
    let links = plan(&w, ctx);
    let victim = ctx.t.idx(links.len());
    let (src, tgt) = links[victim];
    let r = ctx.t.fork();
    let mut sc = Scene::new(w, links.clone(), r);
    let (a, b) = (sc.w.cfg.justification_threshold_factor, sc.w.cfg.justification_threshold_quotient);
    let wrong = WRONG[ctx.t.idx(WRONG.len())];
    let control = ctx.t.chance(1, 4);
    let mut atts = vec![];
    let now = version_at(&sc.w.spec, tgt);
    let sched = schedule(&sc.w.spec);
    let versions: Vec<[u8; 4]> = sched.iter().map(|x| x.1).filter(|v| *v != now).chain([[0xff; 4], [now[0] ^ 1, now[1], now[2], now[3]]]).collect();
    let version = versions[ctx.t.idx(versions.len())];
    let next = sched.iter().find(|(e, _)| *e > tgt).map(|x| x.1);
    let prev = sched.iter().rev().find(|(e, v)| *e <= tgt && *v != now).map(|x| x.1);
    let ty = *ctx.t.pick(&[0u32, 2, 3, 4, 5, 6, 7, 10, 0x0100_0000]);
    let delta = 1 + ctx.t.below(spe::<E>());
    let idx = 1 + ctx.t.below(4);
    let gvr2 = *ctx.t.pick(&[[0u8; 32], simtree::sha(b"Mainnet"), simtree::sha(b"Sepolia"), [9; 32]]);
    let side = ctx.t.chance(1, 2);
    let keep = *ctx.t.pick(&[Turnout::Short, Turnout::Half]);
    for (k, (s, t)) in links.iter().enumerate() {
        let act = sc.active(*t);
        let (sc_s, sc_t) = (sc.cp(*s), sc.cp(*t));
        let all: BTreeSet<usize> = choose(&mut sc.r, &sc.vals, &act, a, b, Turnout::Full);
        if k != victim || control {
            atts.extend(sc.cast(sc_s, sc_t, &all));
            continue;
        }
        let honest = choose(&mut sc.r, &sc.vals, &act, a, b, keep);
        if ctx.t.chance(2, 3) {
            atts.extend(sc.cast(sc_s, sc_t, &honest));
        }
        ctx.fault(wrong);
        let com = sc.committees(*t);
        let gvr = sc.w.gvr;
        let first = t * spe::<E>();
        let mut x = sc.r.clone();
        let made = votes(&sc.w, &mut x, &sc.vals, &com, first, sc_s, sc_t, &all, &mut sc.ledger, &|d: &mut AttestationData, dom: &mut H| match wrong {
            "fork-version" => *dom = domain(1, version, &gvr),
            "other-side-of-transition" => {
                if let Some(v) = if side { prev.or(next) } else { next.or(prev) } {
                    *dom = domain(1, v, &gvr)
                }
            }
            "genesis-root" => *dom = domain(1, now, &if gvr2 == gvr { [3; 32] } else { gvr2 }),
            "domain-type" => *dom = domain(ty, now, &gvr),
            "target-epoch-domain" => *dom = domain(1, now, &simtree::sha(&gvr)),
            "no-domain" => *dom = [0; 32],
            "slot-before-epoch" => d.slot = (d.slot.as_u64() - delta.min(d.slot.as_u64())).into(),
            "slot-after-epoch" => d.slot = (d.slot.as_u64() + delta).into(),
            "slot-far" => d.slot = (d.slot.as_u64() ^ (1 << 20)).into(),
            "index" => d.index = idx,
            "other-target" => d.target.root = simtree::sha(&d.target.root.0).into(),
            _ => {}
        });
        sc.r = x;
        if wrong == "base-variant" {
            // honest content, but a message type that no longer exists
            atts.extend(made.iter().filter_map(to_base));
            // such votes do not count
            sc.ledger.retain(|l| Checkpoint::from(l.data.target) != sc_t);
            let honest_in = atts.iter().any(|a| a.as_electra().is_ok() && Checkpoint::from(a.data().target) == sc_t);
            if honest_in {
                let com = sc.committees(*t);
                let who: BTreeSet<usize> = atts.iter().filter(|a| a.as_electra().is_ok() && Checkpoint::from(a.data().target) == sc_t).flat_map(|a| signers(a, &com)).collect();
                for (i, cs) in com.0.iter().enumerate() {
                    let mine = cs.iter().flatten().copied().filter(|v| who.contains(v)).collect();
                    sc.ledger.push(Signed { data: sc.w.data(first + i as u64, 0, sc_s, sc_t), domain: sc.w.domain_at(*t), signers: mine });
                }
            }
        } else if wrong == "other-target" {
            atts.extend(made.into_iter().map(|mut m| {
                m.data_mut().target = sc_t.into();
                m
            }));
        } else {
            atts.extend(made);
        }
    }
    let fin = links.last().unwrap().0;
    let d = sc.w.witness(&sc.s, atts, sc.patches.clone(), &[fin]);
    let Ok(bytes) = d.encode() else { return Ok(()) };
    let got = match &net {
        Some(n) => crate::nets::run_guest(n, &bytes),
        None => deliver::<E>(&bytes, &sc.w.spec, &sc.w.cfg, &BTreeSet::new()).0,
    };
    ctx.steps += links.len() as u64;
    let vals = &sc.vals;
    let (mut ok, mut two_thirds) = (true, true);
    for (s, t) in &links {
        let act = sc.w.active(vals, sc.patches.get(t), *t);
        let (sup, total) = sc.support(vals, &act, &sc.cp(*s), &sc.cp(*t));
        ok &= reaches(sup, total, a, b);
        two_thirds &= sup * 3 >= total * 2;
    }
    let forks: Vec<usize> = links.iter().map(|(_, t)| fork_at(&sc.w.spec, *t)).collect();
    ctx.log(format!("victim {src}->{tgt}, {}: support by counted votes {ok}, forks {forks:?}, {}", if control { "control" } else { wrong }, matches!(got, Outcome::Accept { .. })));
    ctx.cover_of(&(control, wrong, victim, forks, ok, net.map(|n| n == Net::Mainnet)));
    if control {
        let slots: BTreeMap<alloy_primitives::B256, u64> = [(sc.cp(fin).root(), sc.w.snap(fin).slot)].into();
        let want = reference(&sc, &d, &slots);
        let _ = two_thirds;
        return compare(ctx, "control", &want, &got);
    }
    if let Outcome::Accept { post, .. } = &got {
        must!(
            ok,
            "foreign-votes",
            "votes with wrong {wrong} were counted for {src}->{tgt}: accepted justified {} finalized {}",
            post.current_justified_checkpoint().epoch(),
            post.finalized_checkpoint().epoch()
        );
    }
    Ok(())
}

/// A trusted state whose recorded fork contradicts the network's schedule is refused.
fn state_fork(ctx: &mut Ctx) -> RunResult {
    let mut w = World::<MinimalEthSpec>::new(ctx);
    w.profile.n = 24;
    tidy(&mut w);
    near_transition(ctx, &mut w);
    let truth = w.spec.clone();
    let se = w.snap(w.f).slot / spe::<MinimalEthSpec>();
    w.snaps.borrow_mut().clear();
    // the state's chain follows another schedule
    let how = ctx.t.below(4);
    match how {
        0 => w.spec.fulu_fork_epoch = Some(Epoch::new(se + 1)),
        1 => w.spec.fulu_fork_epoch = Some(Epoch::new(se)),
        2 => {
            w.spec.fulu_fork_version[ctx.t.idx(4)] ^= 1 << ctx.t.below(8);
            w.spec.electra_fork_version[ctx.t.idx(4)] ^= 1 << ctx.t.below(8);
        }
        _ => {
            w.spec.deneb_fork_version[ctx.t.idx(4)] ^= 1;
            w.spec.fulu_fork_epoch = truth.fulu_fork_epoch;
        }
    }
    let _ = w.snap(w.f);
    let at = |s: &z_core::ChainSpec| {
        let sched = schedule(s);
        let c = sched.iter().rposition(|(e, _)| *e <= se).unwrap();
        let p = if sched[c].0 == 0 { c } else { c - 1 };
        (sched[p].1, sched[c].1, sched[c].0)
    };
    let same = at(&w.spec) == at(&truth);
    ctx.fault("contradicting-state-fork");
    // votes follow the truth
    w.spec = truth;
    let links = plan(&w, ctx);
    let r = ctx.t.fork();
    let mut sc = Scene::new(w, links.clone(), r);
    let d = sc.draft(&[]);
    let Ok(bytes) = d.encode() else { return Ok(()) };
    let got = deliver::<MinimalEthSpec>(&bytes, &sc.w.spec, &sc.w.cfg, &BTreeSet::new()).0;
    ctx.cover_of(&("state-fork", how, same, links.len()));
    if let Outcome::Accept { .. } = got {
        must!(same, "state-of-other-fork", "a trusted state whose fork record contradicts the chain specification was accepted (kind {how}, state epoch {se})");
    }
    Ok(())
}

/// The networks' parameters and guests, and inputs of one network given to the other.
fn networks(ctx: &mut Ctx) -> RunResult {
    let net = *ctx.t.pick(&[Net::Mainnet, Net::Sepolia]);
    let other = if net == Net::Mainnet { Net::Sepolia } else { Net::Mainnet };
    let s = net.file_spec();
    must!(schedule(&s) == net.forks(), "network-forks", "{net:?}: fork schedule {:?}, published {:?}", schedule(&s), net.forks());
    let want = z_core::ChainSpec::mainnet();
    let facts = |s: &z_core::ChainSpec| {
        (
            (s.shuffle_round_count, s.target_committee_size, s.max_committees_per_slot, s.seconds_per_slot),
            (s.min_per_epoch_churn_limit_electra, s.churn_limit_quotient, s.effective_balance_increment, s.min_seed_lookahead.as_u64(), s.max_seed_lookahead.as_u64()),
        )
    };
    let mut w1 = facts(&want);
    w1.1 .0 = 128 * ETH;
    must!(facts(&s) == w1, "network-parameters", "{net:?}: parameters {:?}, published {:?}", facts(&s), w1);
    let mut w = crate::nets::world_of(ctx, net);
    let kind = ctx.t.below(3);
    if kind == 2 {
        // a state of the right network, whose validators sign for the other one
        w.gvr = net.genesis_validators_root();
    }
    let links = plan(&w, ctx);
    let r = ctx.t.fork();
    let mut sc = Scene::new(w, links.clone(), r);
    let mut atts = vec![];
    for (s, t) in &links {
        let act: BTreeSet<usize> = sc.active(*t).into_iter().collect();
        let (cs, ct) = (sc.cp(*s), sc.cp(*t));
        if kind == 2 {
            let com = sc.committees(*t);
            let dom = match ctx.t.below(3) {
                0 => domain(1, version_at(&sc.w.spec, *t), &other.genesis_validators_root()),
                1 => domain(1, version_at(&other.spec(), *t), &sc.w.gvr),
                _ => domain(1, version_at(&other.spec(), *t), &other.genesis_validators_root()),
            };
            let mut x = sc.r.clone();
            atts.extend(votes(&sc.w, &mut x, &sc.vals, &com, t * 32, cs, ct, &act, &mut sc.ledger, &|_, d| *d = dom));
            sc.r = x;
        } else {
            atts.extend(sc.cast(cs, ct, &act));
        }
    }
    let fin = links.last().unwrap().0;
    let d = sc.w.witness(&sc.s, atts, sc.patches.clone(), &[fin]);
    let Ok(bytes) = d.encode() else { return Ok(()) };
    ctx.cover_of(&("network", net == Net::Mainnet, kind, links.len(), fork_at(&sc.w.spec, links[0].1)));
    ctx.steps += 1;
    match kind {
        0 => {
            ctx.count("own_network");
            let got = crate::nets::run_guest(&net, &bytes);
            let slots: BTreeMap<alloy_primitives::B256, u64> = [(sc.cp(fin).root(), sc.w.snap(fin).slot)].into();
            let want = reference(&sc, &d, &slots);
            compare(ctx, "network-control", &want, &got)
        }
        1 => {
            ctx.fault("input-of-other-network");
            let got = crate::nets::run_guest(&other, &bytes);
            must!(matches!(got, Outcome::Reject { .. }), "cross-network", "the {other:?} guest accepted an input of {net:?}: {got:?}");
            Ok(())
        }
        _ => {
            ctx.fault("votes-of-other-network");
            let got = crate::nets::run_guest(&net, &bytes);
            must!(matches!(got, Outcome::Reject { .. }), "cross-network-votes", "the {net:?} guest counted votes signed for {other:?}: {got:?}");
            Ok(())
        }
    }
}
