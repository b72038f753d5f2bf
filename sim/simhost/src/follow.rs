//! Following simulated chains with the real host and verifier.
use crate::build::*;
use crate::chain::{Chain, Cp, NoPlan, Plan, Profile, SPE};
use crate::sys::Scratch;
use simkit::{Ctx, RunResult, must, violate};
use std::collections::BTreeSet;
use std::sync::Arc;
use z_core::Config;

pub struct Case {
    pub chain: Arc<Chain>,
    pub cfg: Config,
    pub head: u64,
}
impl Case {
    pub fn draw(ctx: &mut Ctx, lively: bool) -> Self {
        let (mut spec, base) = network(ctx);
        let mut profile = Profile::draw(ctx, base, lively);
        let mut cfg = thresholds(ctx);
        if ctx.t.chance(1, 25) {
            // as many committees as there can be
            profile.n = 2048 + (ctx.t.below(48) * ctx.t.below(48)) as usize;
            spec.target_committee_size = *ctx.t.pick(&[1usize, 4096]);
            ctx.count("large_registry");
        }
        if lively && ctx.t.chance(1, 4) {
            // Finality far apart under a configuration that allows for it. Only exits can be known so
            // far ahead: activations depend on when the finality of the trusted checkpoint showed.
            ctx.count("chain_long");
            profile.joining = 0;
            profile.deposits = false;
            profile.drift = 0;
            profile.ops = *ctx.t.pick(&[0u64, 20, 60]);
            cfg.epoch_lookahead_limit = (5 + ctx.t.below(8)).into();
            profile.stretch(ctx);
        }
        let seed = ctx.t.raw();
        let chain = Chain::build(&spec, &profile, seed);
        let head = chain.last();
        for (k, n) in &chain.events {
            ctx.count_n(&format!("chain_{k}"), *n);
        }
        Case { chain: Arc::new(chain), cfg, head }
    }
    pub fn until(&self) -> u64 {
        self.head / SPE
    }
    pub fn limit(&self) -> u64 {
        self.cfg.epoch_lookahead_limit.as_u64()
    }
    pub fn plan(&self, f: Cp) -> Result<Plan, NoPlan> {
        self.chain.plan(f, self.until())
    }
    /// Whether the documented preconditions for following from `f` hold.
    pub fn followable(&self, p: &Plan) -> Result<(), &'static str> {
        let c = &self.chain;
        let trusted = c.trusted(p.f);
        for l in &p.links {
            let t = l.1 .0;
            if t > p.f.0 + self.limit() {
                return Err("beyond-lookahead");
            }
            let until = p.seen * SPE - 1;
            let (with, all) = c.support(*l, until, trusted);
            if !reaches(&self.cfg, with, all) {
                return Err("trusted-support");
            }
            let (with, all) = c.support(*l, until, c.start(t).unwrap());
            if !reaches(&self.cfg, with, all) {
                return Err("current-support");
            }
        }
        Ok(())
    }
    /// A validator activated by a transition between the boundary block and the (empty) start of the
    /// trusted epoch, in which finality advanced: nothing in the trusted state tells of it.
    pub fn hidden_activation(&self, p: &Plan) -> bool {
        p.links.iter().any(|l| !self.hidden(p.f, l.1 .0).is_empty())
    }
    pub fn hidden(&self, f: Cp, t: u64) -> BTreeSet<usize> {
        let ts = self.chain.trusted(f);
        let s = self.chain.start(t).unwrap();
        if ts.slot == f.0 * SPE {
            return BTreeSet::new();
        }
        let it = ts.reg.vals.iter().zip(&s.reg.vals).enumerate();
        it.filter(|(_, (a, b))| a.act == u64::MAX && a.elig > ts.fin.0 && b.act <= t).map(|(i, _)| i).collect()
    }
    /// A finalized checkpoint with the plan for following it, if any.
    pub fn any(&self, ctx: &mut Ctx) -> Option<Plan> {
        let v: Vec<Plan> = self.chain.finalized().into_iter().filter_map(|f| self.plan(f).ok()).collect();
        if v.is_empty() {
            ctx.count("chain-without-plan");
            return None;
        }
        Some(v[ctx.t.idx(v.len())].clone())
    }
    /// Epoch starts without a block up to the one of the trusted epoch.
    pub fn skipped(&self, p: &Plan) -> u64 {
        p.f.0 - self.chain.trusted(p.f).slot / SPE
    }
    pub fn shape(&self, p: &Plan) -> Vec<u64> {
        let mut v = vec![p.j.0 - p.f.0, p.seen - p.f.0];
        v.extend(p.links.iter().map(|l| l.1 .0 - p.f.0));
        v
    }
}

pub fn short(c: Cp) -> String {
    format!("{}:{:02x}{:02x}", c.0, c.1[0], c.1[1])
}

pub fn c02(ctx: &mut Ctx) -> RunResult {
    let case = Case::draw(ctx, true);
    let dir = Scratch::new();
    let fins = case.chain.finalized();
    let mut k = 0;
    let mut f = match fins.first() {
        Some(f) => *f,
        None => {
            ctx.count("chain-without-finality");
            return Ok(());
        }
    };
    ctx.log(format!("chain of {} validators from epoch {}, finalized {:?}, {:?}", case.chain.profile.n, case.chain.profile.base, fins.iter().map(|f| f.0).collect::<Vec<_>>(), case.chain.events));
    for _ in 0..6 {
        let plan = case.plan(f);
        let follow = plan.as_ref().map_err(|e| format!("{e:?}")).and_then(|p| case.followable(p).map_err(|e| e.to_string()));
        let mut env = Env::draw(ctx, &case.chain, case.head, dir.path().to_path_buf());
        let budget = ctx.t.below(4);
        env.faults(ctx, budget);
        let mut left = budget;
        let mut done = false;
        for attempt in 0..=budget {
            env.weather.budget = left;
            env.weather.seed = ctx.t.raw();
            let d = build(&case.chain, &case.cfg, f, &env);
            merge(ctx, &d);
            let hits: u64 = d.faults.values().sum();
            left -= hits;
            ctx.log(format!(
                "from {}: attempt {attempt}: {} requests, faults {:?}: {}",
                short(f),
                d.requests,
                d.faults,
                match &d.result {
                    Ok(b) => format!("{:?}", (cps(&b.post).0 .0, cps(&b.post).1 .0, b.slot)),
                    Err(e) => format!("{e:?}"),
                }
            ));
            match (&d.result, &follow) {
                (Ok(b), Ok(())) => {
                    let p = plan.as_ref().unwrap();
                    must!(cps(&b.pre) == (p.j, p.f), "wrong-start", "started from {:?}, the chain confirms {} with {}", b.pre, short(p.f), short(p.j));
                    must!(cps(&b.post) == p.post && b.slot == p.slot, "wrong-result", "followed to {:?} slot {}, the chain has {} {} slot {}", b.post, b.slot, short(p.post.0), short(p.post.1), p.slot);
                    let v = verify(&case.chain.spec, &case.cfg, &b.bytes, &[]);
                    match v.result {
                        Ok((s, slot)) => must!(cps(&s) == p.post && slot == p.slot, "verifier-differs", "verified to {s:?} {slot}, the chain has {}", short(p.post.1)),
                        Err(e) if case.hidden_activation(p) => violate!(
                            "skipped-boundary-activation",
                            "input of an honest chain from {} (links {:?}, empty boundary slot, activation in the skipped transition) is refused: {e}",
                            short(f),
                            case.shape(p)
                        ),
                        Err(e) => violate!("honest-input-refused", "input of an honest chain from {} (links {:?}) is refused: {e}", short(f), case.shape(p)),
                    }
                    done = true;
                    break;
                }
                (Err(e), Ok(())) => {
                    must!(hits > 0, format!("not-followed-{}", e.stage()), "from {} (links {:?}, confirmed in {}): {e:?}", short(f), case.shape(plan.as_ref().unwrap()), plan.as_ref().unwrap().seen);
                    ctx.count("failed-attempt");
                }
                (Ok(b), Err(why)) => {
                    // more than promised, but it must be true
                    let (_, fin) = cps(&b.post);
                    must!(fins.contains(&fin) && fin.0 > f.0 && case.chain.by_root.get(&fin.1) == Some(&b.slot), "false-finality", "followed from {} to {:?}, which the chain did not finalize ({why})", short(f), b.post);
                    ctx.count("followed-anyway");
                    done = true;
                    break;
                }
                (Err(e), Err(why)) => {
                    ctx.count(&format!("unfollowable_{}", why.chars().filter(|c| c.is_ascii_alphabetic()).take(24).collect::<String>()));
                    let _ = e;
                    break;
                }
            }
        }
        if follow.is_ok() {
            must!(done, "no-progress", "no progress from {} although faults stopped", short(f));
            let p = plan.as_ref().unwrap();
            ctx.count("followed");
            if let Ok(p) = &plan {
                if case.skipped(p) > 1 {
                    ctx.count("followed_after_outage");
                }
            }
            ctx.cover_of(&(case.shape(p), budget - left, env.memory));
            f = p.post.1;
        } else {
            // go on from the next checkpoint the chain finalized
            k = fins.iter().position(|x| *x == f).unwrap_or(k) + 1;
            match fins.get(k) {
                Some(x) => f = *x,
                None => break,
            }
        }
        if matches!(case.plan(f), Err(NoPlan::NotYet)) {
            break;
        }
    }
    Ok(())
}

/// What the builder and the verifier take for the active validators and the seed of every epoch of
/// the lookahead window, against the chain.
pub fn c09(ctx: &mut Ctx) -> RunResult {
    let case = Case::draw(ctx, true);
    let Some(p) = case.any(ctx) else { return Ok(()) };
    let dir = Scratch::new();
    let mut env = Env::draw(ctx, &case.chain, case.head, dir.path().to_path_buf());
    env.unverified = true;
    env.probe = (p.f.0..=(p.f.0 + case.limit()).min(case.until())).collect();
    ctx.t.shuffle(&mut env.probe);
    // the trusted epoch itself is asked about, but has no seed within the proven mixes
    let d = build(&case.chain, &case.cfg, p.f, &env);
    merge(ctx, &d);
    let b = match d.result {
        Ok(b) => b,
        Err(e) => violate!(format!("not-built-{}", e.stage()), "no input for {}: {e:?}", short(p.f)),
    };
    let v = verify(&case.chain.spec, &case.cfg, &b.bytes, &env.probe);
    let ts = case.chain.trusted(p.f).clone();
    ctx.log(format!("trusted {} (boundary block at slot {}), links {:?}, epochs {:?}: {:?}", short(p.f), ts.slot, case.shape(&p), env.probe, v.result));
    if v.said.is_empty() {
        violate!("input-refused", "the reader refused honest lookahead data: {:?}", v.result);
    }
    let mut changed = 0;
    for t in &env.probe {
        let s = case.chain.start(*t).unwrap();
        let want: BTreeSet<usize> = s.active(*t).into_iter().collect();
        let seed = crate::chain::seed_for(s, *t);
        let host = &d.said[t];
        let ids = |x: &Said| x.active.iter().map(|a| a.0).collect::<BTreeSet<usize>>();
        let diff = |a: &BTreeSet<usize>, b: &BTreeSet<usize>| (a.difference(b).copied().collect::<Vec<_>>(), b.difference(a).copied().collect::<Vec<_>>());
        must!(ids(host) == want, "builder-active", "active validators of the builder at {t}: (added, missing) {:?}", diff(&ids(host), &want));
        must!(host.seed == Some(seed), "builder-seed", "seed of the builder at {t} differs from the chain's");
        let Some(guest) = v.said.get(t) else { violate!("verifier-silent", "the verifier has no validators for {t}") };
        let got = ids(guest);
        if got != want {
            let hidden = case.hidden(p.f, *t);
            let mut all = got.clone();
            all.extend(hidden.iter().copied());
            if !hidden.is_empty() && all == want {
                violate!("skipped-boundary-activation", "validators {hidden:?}, activated in the skipped transition, are missing at {t}");
            }
            violate!("verifier-active", "active validators of the verifier at {t} (trusted {}): (added, missing) {:?}", p.f.0, diff(&got, &want));
        }
        must!(guest.seed == Some(seed), "verifier-seed", "seed of the verifier at {t} differs from the chain's");
        let order: Vec<usize> = guest.active.iter().map(|a| a.0).collect();
        must!(order.windows(2).all(|w| w[0] < w[1]), "order", "validators out of order at {t}");
        let horder: Vec<usize> = host.active.iter().map(|a| a.0).collect();
        must!(order == horder, "order", "validators in another order at {t}");
        for (i, k, eff, slashed) in &guest.active {
            let a = &ts.reg.vals[*i];
            must!(*k == simcore::world::key(a.key).pk.serialize(), "key", "key of validator {i} at {t}");
            must!(*eff == a.eff && *slashed == a.slashed, "balance", "validator {i} at {t}: {eff} {slashed}, trusted {} {}", a.eff, a.slashed);
        }
        for (i, k, eff, slashed) in &host.active {
            must!(*k == simcore::world::key(s.reg.vals[*i].key).pk.serialize(), "key", "key of validator {i} at {t} in the builder");
            let a = &s.reg.vals[*i];
            must!(*eff == a.eff && *slashed == a.slashed, "builder-balance", "validator {i} at {t} in the builder: {eff} {slashed}, chain {} {}", a.eff, a.slashed);
        }
        let com = crate::chain::committees(&case.chain.spec, &order, &guest.seed.unwrap());
        must!(com == case.chain.committees[t], "committees", "committees at {t}");
        changed += s.active(*t).iter().filter(|i| !ts.active(p.f.0).contains(i)).count() * 100 + ts.active(p.f.0).iter().filter(|i| !want.contains(i)).count();
    }
    if case.skipped(&p) > 1 {
        ctx.count("compared_after_outage");
    }
    ctx.count_n("epochs_compared", env.probe.len() as u64);
    ctx.cover_of(&(case.shape(&p), changed.min(5000), ts.slot % SPE == 0, env.probe.len()));
    Ok(())
}

fn vote_key(a: &z_core::Attestation<E>) -> Vec<u8> {
    let z_core::Attestation::Electra(a) = a else { return vec![0] };
    let mut k = a.signature.serialize().to_vec();
    let d = &a.data;
    for x in [d.slot.as_u64(), d.index, d.source.epoch.as_u64(), d.target.epoch.as_u64(), a.aggregation_bits.len() as u64] {
        k.extend_from_slice(&x.to_le_bytes());
    }
    for r in [d.beacon_block_root, d.source.root, d.target.root] {
        k.extend_from_slice(&r.0);
    }
    k.extend(a.aggregation_bits.iter().map(|b| b as u8));
    k.extend(a.committee_bits.iter().map(|b| b as u8));
    k
}

/// The votes of an input against those in the blocks of the chain.
pub fn c18(ctx: &mut Ctx) -> RunResult {
    let mut case = Case::draw(ctx, false);
    let Some(p) = case.any(ctx) else { return Ok(()) };
    // the node has seen the new finality, and possibly not much more
    let first = p.seen * SPE;
    if ctx.t.chance(1, 2) {
        case.head = first + ctx.t.below(case.chain.last() - first + 1);
    }
    let dir = Scratch::new();
    let mut env = Env::draw(ctx, &case.chain, case.head, dir.path().to_path_buf());
    env.unverified = true;
    env.warm.clear();
    let budget = ctx.t.below(3);
    env.faults(ctx, budget);
    if budget > 0 && ctx.t.chance(1, 2) {
        env.weather.at = (0..budget).map(|_| ctx.t.below(130)).collect();
    }
    let d = build(&case.chain, &case.cfg, p.f, &env);
    merge(ctx, &d);
    let hits: u64 = d.faults.values().sum();
    let b = match d.result {
        Ok(b) => b,
        Err(e) => {
            must!(hits > 0, format!("not-built-{}", e.stage()), "no input for {}: {e:?}", short(p.f));
            ctx.count("failed-build");
            return Ok(());
        }
    };
    let input: z_core::GuestInput<E> = match bincode::deserialize(&b.bytes) {
        Ok(i) => i,
        Err(e) => violate!("undecodable", "{e}"),
    };
    must!(cps(&b.pre) == (p.j, p.f), "wrong-start", "starts from {:?}, the chain confirms {} with {}", b.pre, short(p.f), short(p.j));
    let until = ((p.links.last().unwrap().1 .0 + 2) * SPE - 1).min(case.head);
    let c = |c: beacon_types::Checkpoint| (c.epoch.as_u64(), c.root.0);
    let mut groups: Vec<((Cp, Cp), Vec<Vec<u8>>)> = vec![];
    for a in &input.attestations {
        let l = (c(a.data().source), c(a.data().target));
        let key = vote_key(a);
        match groups.last_mut() {
            Some(g) if g.0 == l => g.1.push(key),
            _ => groups.push((l, vec![key])),
        }
    }
    let links: Vec<(Cp, Cp)> = groups.iter().map(|g| g.0).collect();
    let want: Vec<(Cp, Cp)> = p.links.iter().copied().filter(|l| !case.chain.votes(*l, until).is_empty()).collect();
    ctx.log(format!("trusted {} links {:?} head {} ({} slots after the last target): votes {:?}", short(p.f), case.shape(&p), case.head, case.head as i64 - (p.links.last().unwrap().1 .0 * SPE) as i64, groups.iter().map(|g| g.1.len()).collect::<Vec<_>>()));
    must!(links == want, "links", "votes for links {links:?}, the chain used {want:?}");
    let mut late = 0;
    for (l, got) in &groups {
        let votes = case.chain.votes(*l, until);
        late += case.chain.votes(*l, (l.1 .0 + 1) * SPE - 1).len() as u64;
        let have: BTreeSet<Vec<u8>> = votes.iter().map(|a| vote_key(&a.plain())).collect();
        let got_set: BTreeSet<Vec<u8>> = got.iter().cloned().collect();
        let lost = have.difference(&got_set).count();
        let extra = got_set.difference(&have).count();
        must!(lost == 0, "lost-votes", "{lost} of {} aggregates for {}->{} are missing (included up to slot {until})", have.len(), short(l.0), short(l.1));
        must!(extra == 0, "invented-votes", "{extra} aggregates for {}->{} that no block contains", short(l.0), short(l.1));
        must!(got.len() <= votes.len(), "repeated-votes", "{} aggregates for {}->{}, blocks contain {}", got.len(), short(l.0), short(l.1), votes.len());
    }
    ctx.count_n("aggregates", input.attestations.len() as u64);
    let n = input.attestations.len() as u64;
    ctx.cover_of(&(case.shape(&p), case.head as i64 - (first as i64) < 32, n - late.min(n) > 0, hits));
    Ok(())
}

/// The same input built under different circumstances.
pub fn c20(ctx: &mut Ctx) -> RunResult {
    let case = Case::draw(ctx, true);
    let Some(p) = case.any(ctx) else { return Ok(()) };
    if case.followable(&p).is_err() {
        ctx.count("unfollowable");
    }
    let unverified = case.followable(&p).is_err();
    let dirs = [Scratch::new(), Scratch::new()];
    let mut first: Option<Built> = None;
    let rounds = 2 + ctx.t.below(2);
    let mut orders = BTreeSet::new();
    for k in 0..rounds {
        let dir = &dirs[ctx.t.idx(2)];
        let mut env = Env::draw(ctx, &case.chain, case.head, dir.path().to_path_buf());
        env.unverified = unverified;
        if ctx.t.chance(1, 4) {
            env.faults(ctx, 2);
        }
        let d = build(&case.chain, &case.cfg, p.f, &env);
        merge(ctx, &d);
        orders.insert(d.order);
        let hits: u64 = d.faults.values().sum();
        ctx.log(format!("build {k}: {} requests, {} threads, delays up to {} ms, faults {hits}, hash seed {:x}: {}", d.requests, env.threads, env.weather.delay_ms, env.hash_seed as u16, match &d.result { Ok(b) => format!("{} bytes", b.bytes.len()), Err(e) => e.stage().into() }));
        let b = match d.result {
            Ok(b) => b,
            Err(e) => {
                must!(hits > 0, format!("not-built-{}", e.stage()), "no input for {}: {e:?}", short(p.f));
                continue;
            }
        };
        let again: Result<z_core::GuestInput<E>, _> = bincode::deserialize(&b.bytes);
        match again {
            Ok(i) => {
                must!(bincode::serialize(&i).ok().as_ref() == Some(&b.bytes), "roundtrip", "decoding and encoding changes the input");
                must!(i.consensus_state == b.pre, "roundtrip", "decoding changes the starting state");
            }
            Err(e) => violate!("undecodable", "{e}"),
        }
        match &first {
            None => {
                if !unverified {
                    let v = verify(&case.chain.spec, &case.cfg, &b.bytes, &[]);
                    match v.result {
                        Ok((s, n)) => must!(s == b.post && n == b.slot, "other-result", "the decoded input verifies to {s:?} {n}, the built one to {:?} {}", b.post, b.slot),
                        Err(e) if case.hidden_activation(&p) => ctx.log(format!("known: {e}")),
                        Err(e) => violate!("decoded-refused", "the decoded input is refused: {e}"),
                    }
                }
                first = Some(b);
            }
            Some(a) => {
                if a.bytes != b.bytes {
                    let at = a.bytes.iter().zip(&b.bytes).position(|(x, y)| x != y).unwrap_or(a.bytes.len().min(b.bytes.len()));
                    violate!("different-bytes", "build {k} differs from the first at byte {at} ({} and {} bytes)", a.bytes.len(), b.bytes.len());
                }
                must!(*a == b, "different-result", "build {k} gives another result");
            }
        }
    }
    ctx.count_n("orders", orders.len() as u64);
    ctx.cover_of(&(case.shape(&p), rounds, orders));
    Ok(())
}
