//! One verification scene: links, who votes for them, and the rules by which votes count.
use crate::world::*;
use simkit::{Ctx, Rng};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use z_core::{Attestation, Checkpoint, EthSpec};

pub struct Scene<E: EthSpec> {
    pub w: World<E>,
    pub s: Rc<Snap>,
    pub vals: Vec<Val>,
    pub links: Vec<(u64, u64)>,
    pub patches: BTreeMap<u64, Patch>,
    pub ledger: Vec<Signed>,
    pub r: Rng,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Turnout {
    Full,
    /// smallest set found that reaches the threshold
    Enough,
    /// largest set found that misses it
    Short,
    Half,
}

/// Links from the justified epoch to the next finalization inside the lookahead window.
pub fn plan<E: EthSpec>(w: &World<E>, ctx: &mut Ctx) -> Vec<(u64, u64)> {
    let end = w.f + w.cfg.epoch_lookahead_limit.as_u64();
    let mut src = w.j;
    let mut v = vec![];
    while src + 3 <= end && ctx.t.chance(1, 3) {
        let t = src + 2 + ctx.t.below((end - 1 - (src + 2)).min(3) + 1);
        v.push((src, t));
        src = t;
    }
    v.push((src, src + 1));
    v
}

pub fn sum(vals: &[Val], who: impl IntoIterator<Item = usize>) -> u128 {
    who.into_iter().map(|i| vals[i].eff as u128).sum()
}

pub fn reaches(support: u128, total: u128, a: u64, b: u64) -> bool {
    // all balances are far below 2^64, factors are 64-bit: no overflow
    support * b as u128 >= total * a as u128
}

pub fn choose(r: &mut Rng, vals: &[Val], active: &[usize], a: u64, b: u64, how: Turnout) -> BTreeSet<usize> {
    let total = sum(vals, active.iter().copied());
    let mut c: Vec<usize> = active.iter().copied().filter(|i| !vals[*i].slashed).collect();
    for i in (1..c.len()).rev() {
        let j = r.idx(i + 1);
        c.swap(i, j);
    }
    let mut out = BTreeSet::new();
    let mut have = 0u128;
    match how {
        Turnout::Full => return c.into_iter().collect(),
        Turnout::Half => return c.into_iter().filter(|_| r.below(2) == 0).collect(),
        Turnout::Enough => {
            for i in &c {
                if reaches(have, total, a, b) {
                    break;
                }
                out.insert(*i);
                have += vals[*i].eff as u128;
            }
            for i in &c {
                if out.contains(i) && reaches(have - vals[*i].eff as u128, total, a, b) {
                    out.remove(i);
                    have -= vals[*i].eff as u128;
                }
            }
        }
        Turnout::Short => {
            for i in &c {
                let e = vals[*i].eff as u128;
                if !reaches(have + e, total, a, b) {
                    out.insert(*i);
                    have += e;
                }
            }
        }
    }
    out
}

impl<E: EthSpec> Scene<E> {
    pub fn new(w: World<E>, links: Vec<(u64, u64)>, r: Rng) -> Self {
        let s = w.snap(w.f);
        let vals = w.registry_at(&s, w.j);
        let patches = links.iter().map(|(_, t)| (*t, w.honest_patch(*t))).collect();
        Scene { w, s, vals, links, patches, ledger: vec![], r }
    }
    pub fn active(&self, t: u64) -> Vec<usize> {
        self.w.active(&self.vals, self.patches.get(&t), t)
    }
    pub fn seed(&self, t: u64) -> [u8; 32] {
        let mix = self.patches.get(&t).and_then(|p| p.mixes.get(&self.w.mix_index(t)).copied()).unwrap_or([0; 32]);
        self.w.seed_of(t, &mix)
    }
    pub fn committees(&self, t: u64) -> Committees {
        self.w.committees(&self.active(t), &self.seed(t))
    }
    /// Votes for one link cast by `voters`, as attestations.
    pub fn cast(&mut self, source: Checkpoint, target: Checkpoint, voters: &BTreeSet<usize>) -> Vec<Attestation<E>> {
        let t = target.epoch().as_u64();
        let com = self.committees(t);
        votes(&self.w, &mut self.r, &self.vals, &com, t.wrapping_mul(spe::<E>()), source, target, voters, &mut self.ledger, &|_, _| {})
    }
    pub fn cp(&self, e: u64) -> Checkpoint {
        self.w.cp(e)
    }
    /// Turnout for every link (one entry per link, missing entries mean full).
    pub fn draft(&mut self, turnout: &[Turnout]) -> Draft<E> {
        let mut atts = vec![];
        let (a, b) = (self.w.cfg.justification_threshold_factor, self.w.cfg.justification_threshold_quotient);
        for (k, (s, t)) in self.links.clone().into_iter().enumerate() {
            let act = self.active(t);
            let how = turnout.get(k).copied().unwrap_or(Turnout::Full);
            let voters = choose(&mut self.r, &self.vals, &act, a, b, how);
            let (s, t) = (self.cp(s), self.cp(t));
            atts.extend(self.cast(s, t, &voters));
        }
        let fin = self.links.last().map(|l| l.0).unwrap_or(self.w.j);
        self.w.witness(&self.s, atts, self.patches.clone(), &[fin])
    }
    pub fn targets(&self) -> BTreeSet<u64> {
        self.links.iter().map(|l| l.1).collect()
    }

    /// Support a link really has: who is active and unslashed at the target, by the votes really signed.
    pub fn support(&self, vals: &[Val], active: &[usize], source: &Checkpoint, target: &Checkpoint) -> (u128, u128) {
        let t = target.epoch().as_u64();
        let dom = self.w.domain_at(t);
        let act: BTreeSet<usize> = active.iter().copied().collect();
        let mut who = BTreeSet::new();
        for l in &self.ledger {
            if Checkpoint::from(l.data.source) == *source
                && Checkpoint::from(l.data.target) == *target
                && l.data.index == 0
                && l.data.slot.as_u64() / spe::<E>() == t
                && l.domain == dom
            {
                who.extend(l.signers.iter().copied().filter(|i| act.contains(i) && !vals[*i].slashed));
            }
        }
        (sum(vals, who), sum(vals, act))
    }
}

/// The links of consecutive attestations, as the verifier groups them.
pub fn groups<E: EthSpec>(atts: &[Attestation<E>]) -> Vec<(Checkpoint, Checkpoint)> {
    let mut v: Vec<(Checkpoint, Checkpoint)> = vec![];
    for a in atts {
        let l = (a.data().source.into(), a.data().target.into());
        if v.last() != Some(&l) {
            v.push(l);
        }
    }
    v
}

/// Whether claimed exits respect the limits the property states, in the registry `vals` (state at the
/// trusted checkpoint `s`, activations replayed).
pub fn exits_allowed<E: EthSpec>(w: &World<E>, s: &Snap, vals: &[Val], patches: &BTreeMap<u64, Patch>) -> Result<(), String> {
    let f = s.epoch;
    let total: u64 = vals.iter().filter(|v| v.act <= f && f < v.exit).map(|v| v.eff).sum::<u64>().max(ETH);
    let churn = w.spec.min_per_epoch_churn_limit_electra.max(total / w.spec.churn_limit_quotient);
    let churn = 2 * (churn - churn % ETH) as u128;
    let e0 = w.first_exit(s);
    for (pe, p) in patches {
        if *pe < f {
            return Err(format!("patch for epoch {pe} before the trusted epoch {f}"));
        }
        let mut news: BTreeMap<u64, u128> = BTreeMap::new();
        for (i, x) in &p.exits {
            let Some(v) = vals.get(*i) else { return Err(format!("exit of unknown validator {i}")) };
            let before = pe.checked_sub(1).and_then(|q| patches.get(&q)).and_then(|q| q.exits.get(i)).copied().unwrap_or(v.exit);
            if before != *x && before != FAR {
                return Err(format!("exit of validator {i} moved from {before} to {x}"));
            }
            if v.exit == *x {
                continue;
            }
            if v.exit != FAR {
                return Err(format!("exit of validator {i} moved from {} to {x}", v.exit));
            }
            if *x < e0 {
                return Err(format!("exit of validator {i} at {x}, before {e0}"));
            }
            *news.entry(*x).or_default() += v.eff as u128;
        }
        let mut have = 0u128;
        for (x, bal) in news {
            have += bal;
            if have > churn * (x - e0 + 1) as u128 {
                return Err(format!("{have} gwei exit up to epoch {x}, allowed {}", churn * (x - e0 + 1) as u128));
            }
        }
    }
    Ok(())
}
