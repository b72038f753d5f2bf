//! C17: applied and reconstructed links over simulated histories and arbitrary state pairs.
use crate::world::consensus_state;
use simkit::{catch, must, Ctx, RunResult};
use z_core::{Checkpoint, ConsensusError, ConsensusState, Epoch, Link};

fn cp(ctx: &mut Ctx, e: u64, roots: u64) -> Checkpoint {
    let r = ctx.t.below(roots);
    Checkpoint::new(Epoch::new(e), if r == 0 && e == 0 { Default::default() } else { [r as u8 + 1; 32].into() })
}

fn valid(s: &ConsensusState) -> bool {
    s.finalized_checkpoint().epoch() < s.current_justified_checkpoint().epoch() || *s == ConsensusState::default()
}
fn show(s: &ConsensusState) -> String {
    let c = |c: Checkpoint| format!("({},{:02x})", c.epoch(), c.root()[0]);
    format!("[justified {} finalized {}]", c(s.current_justified_checkpoint()), c(s.finalized_checkpoint()))
}

pub fn c17(ctx: &mut Ctx) -> RunResult {
    // epochs from a few neighbouring values near one anchor
    let anchor = *ctx.t.pick(&[0u64, 1, 5, 1000, 1 << 32, u64::MAX - 6]);
    let roots = 1 + ctx.t.below(3);
    let near = |ctx: &mut Ctx| anchor + ctx.t.below(7);
    let mut hist: Vec<ConsensusState> = vec![];
    // a history of applied links
    let mut s = if ctx.t.chance(1, 4) {
        ctx.fault("genesis-start");
        ConsensusState::default()
    } else {
        let e = near(ctx);
        let d = 1 + ctx.t.below(3);
        let fe = e.saturating_sub(d);
        let (je, fe) = if fe == e { (e + 1, e) } else { (e, fe) };
        let j = cp(ctx, je, roots);
        let f = cp(ctx, fe, roots);
        consensus_state(j, f)
    };
    hist.push(s.clone());
    let mut two = false;
    for _ in 0..1 + ctx.t.below(5) {
        let j = s.current_justified_checkpoint();
        let f = s.finalized_checkpoint();
        let je = j.epoch().as_u64();
        let link = match ctx.t.below(8) {
            0..=4 => {
                let te = je.saturating_add(1 + ctx.t.below(3));
                Link { source: j, target: cp(ctx, te, roots) }
            }
            5 => {
                ctx.fault("foreign-source");
                let e = near(ctx);
                let t = near(ctx);
                Link { source: cp(ctx, e, roots), target: cp(ctx, t, roots) }
            }
            6 => {
                ctx.fault("backward-target");
                let te = je.saturating_sub(ctx.t.below(3));
                Link { source: j, target: cp(ctx, te, roots) }
            }
            _ => {
                ctx.fault("link-from-finalized");
                let te = je.saturating_add(1 + ctx.t.below(2));
                Link { source: f, target: cp(ctx, te, roots) }
            }
        };
        let te = link.target.epoch().as_u64();
        let applied = catch(|| s.state_transition(&link));
        let want = link.source == j && te > je;
        ctx.steps += 1;
        match applied {
            Ok(Ok(n)) => {
                must!(want, "wrong-link-applied", "from {} the link ({},{:02x})->({te},..) was applied", show(&s), link.source.epoch(), link.source.root()[0]);
                let wf = if te == je + 1 { j } else { f };
                must!(
                    n.current_justified_checkpoint() == link.target && n.finalized_checkpoint() == wf,
                    "wrong-result",
                    "from {} the link to epoch {te} gave {}",
                    show(&s),
                    show(&n)
                );
                must!(valid(&n), "invalid-state", "applying a link gave an unordered state {}", show(&n));
                let back = catch(|| s.transition_link(&n));
                must!(
                    matches!(&back, Ok(Ok(Some(l))) if l.source == link.source && l.target == link.target),
                    "link-not-recognised",
                    "from {} to {}: applied link not found again: {back:?}",
                    show(&s),
                    show(&n)
                );
                ctx.cover_of(&("applied", te - je, je - f.epoch().as_u64(), anchor));
                s = n;
                hist.push(s.clone());
            }
            Ok(Err(_)) => must!(!want, "link-refused", "from {} the link to epoch {te} was refused", show(&s)),
            Err(p) => {
                // a justified epoch with no successor cannot be extended; that must be an error
                simkit::violate!("panic", "applying a link from {} aborted: {p}", show(&s))
            }
        }
    }
    // a step with finality two epochs back, as a beacon chain with late votes makes it
    let mut pairs: Vec<(ConsensusState, ConsensusState)> = vec![];
    for i in 0..hist.len() {
        for k in 0..hist.len() {
            pairs.push((hist[i].clone(), hist[k].clone()));
        }
    }
    for _ in 0..ctx.t.below(6) {
        let mk = |ctx: &mut Ctx| {
            let a = near(ctx);
            let b = near(ctx);
            let (lo, hi) = if a < b { (a, b) } else { (b, a) };
            let j = cp(ctx, hi, roots);
            let f = cp(ctx, lo, roots);
            if ctx.t.chance(1, 8) { ConsensusState::default() } else { consensus_state(j, f) }
        };
        let a = mk(ctx);
        let b = if ctx.t.chance(1, 3) {
            two = true;
            let j = a.current_justified_checkpoint();
            let fe = j.epoch().as_u64().max(a.finalized_checkpoint().epoch().as_u64().saturating_add(1)).saturating_sub(ctx.t.below(2));
            let f = cp(ctx, fe, roots);
            consensus_state(cp(ctx, fe.saturating_add(2), roots), f)
        } else {
            mk(ctx)
        };
        ctx.fault("arbitrary-pair");
        pairs.push((a, b));
    }
    for (a, b) in pairs {
        pair(ctx, &a, &b, two)?;
    }
    Ok(())
}

fn pair(ctx: &mut Ctx, a: &ConsensusState, b: &ConsensusState, _two: bool) -> RunResult {
    if !valid(a) {
        return Ok(());
    }
    let l = match catch(|| a.transition_link(b)) {
        Ok(l) => l,
        Err(p) => simkit::violate!("panic", "pair {} {} aborted: {p}", show(a), show(b)),
    };
    let (aj, af) = (a.current_justified_checkpoint(), a.finalized_checkpoint());
    let (bj, bf) = (b.current_justified_checkpoint(), b.finalized_checkpoint());
    let e = |c: Checkpoint| c.epoch().as_u64();
    ctx.cover_of(&(
        match &l {
            Ok(None) => 0,
            Ok(Some(_)) => 1,
            Err(ConsensusError::TwoFinality) => 2,
            Err(_) => 3,
        },
        e(bj) as i64 - e(aj) as i64,
        e(bf) as i64 - e(af) as i64,
        e(bj) as i64 - e(bf) as i64,
        bf == aj,
    ));
    ctx.steps += 1;
    match &l {
        Ok(None) => must!(a == b, "no-link-for-different-states", "{} and {} differ but no link is reported", show(a), show(b)),
        Ok(Some(l)) => {
            must!(valid(b), "link-to-invalid", "a link is reported from {} to the unordered state {}", show(a), show(b));
            let n = catch(|| a.state_transition(l));
            must!(
                matches!(&n, Ok(Ok(n)) if n == b),
                "link-does-not-lead-there",
                "from {} to {}: link ({},{:02x})->({},{:02x}) gives {:?}",
                show(a),
                show(b),
                l.source.epoch(),
                l.source.root()[0],
                l.target.epoch(),
                l.target.root()[0],
                n.map(|n| n.map(|n| show(&n)))
            );
        }
        Err(err) => {
            must!(a != b, "equal-states-refused", "{} equals itself but the result is {err}", show(a));
            // reachable by one link?
            let link = Link { source: aj, target: bj };
            let n = catch(|| a.state_transition(&link));
            must!(!matches!(&n, Ok(Ok(n)) if n == b), "reachable-pair-refused", "{} leads to {} by one link, but: {err}", show(a), show(b));
            // finality advanced by an epoch whose justification is two epochs old
            if valid(b) && e(bf) > e(af) && e(bj) > e(aj) && e(bj) - e(bf) == 2 {
                ctx.count("two_finality_pairs");
                must!(*err == ConsensusError::TwoFinality, "two-finality-unreported", "{} to {} is 2-finality, reported as {err}", show(a), show(b));
            } else if e(bj) < e(aj) || e(bf) < e(af) || !valid(b) {
                ctx.count("backward_pairs");
            }
        }
    }
    if valid(b) && (e(bj) < e(aj) || e(bf) < e(af)) {
        must!(l.is_err(), "backward-pair-accepted", "{} to {} goes backward but is accepted", show(a), show(b));
    }
    if !valid(b) {
        must!(l.is_err(), "invalid-pair-accepted", "{} to the unordered state {} is accepted", show(a), show(b));
    }
    Ok(())
}
