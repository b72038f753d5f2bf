//! C04: the guest's public output, over chains of runs and a corrupting channel to its reader.
use crate::nets::{guest_journal, parse_journal, Net};
use crate::rules::reference;
use crate::scene::*;
use crate::world::*;
use beacon_types::MinimalEthSpec;
use simkit::{catch, must, Ctx, RunResult};
use std::collections::BTreeMap;
use z_core::{Checkpoint, ConsensusState, Epoch, EthSpec, MainnetEthSpec};

pub fn c04(ctx: &mut Ctx) -> RunResult {
    match ctx.t.below(6) {
        0 => {
            let net = *ctx.t.pick(&[Net::Mainnet, Net::Sepolia]);
            let w = crate::nets::world_of(ctx, net);
            chain(ctx, w, Some(net))
        }
        1 => {
            let w = World::<MainnetEthSpec>::new(ctx);
            chain(ctx, w, None)
        }
        _ => {
            let w = World::<MinimalEthSpec>::new(ctx);
            chain(ctx, w, None)
        }
    }
}

fn run<E: EthSpec>(w: &World<E>, net: Option<Net>, bytes: &[u8]) -> Result<Vec<u8>, (String, Vec<u8>)> {
    match net {
        Some(n) => guest_journal(n.main(), bytes),
        None => {
            let (spec, cfg) = (w.spec.clone(), w.cfg.clone());
            guest_journal(move || beacon_guest::entry::<E>(spec, &cfg), bytes)
        }
    }
}

fn chain<E: EthSpec>(ctx: &mut Ctx, mut w: World<E>, net: Option<Net>) -> RunResult {
    w.profile.n = w.profile.n.min(48);
    if ctx.t.chance(3, 4) {
        crate::rules::tidy(&mut w);
    }
    let rounds = 1 + ctx.t.below(3);
    let mut last: Option<(Checkpoint, Checkpoint)> = None;
    for round in 0..rounds {
        let links = plan(&w, ctx);
        let r = ctx.t.fork();
        let again = World::with(w.spec.clone(), w.cfg.clone(), w.gvr, w.f, w.j, w.seed, w.profile.clone());
        let mut sc = Scene::new(again, links.clone(), r);
        let turnouts: Vec<Turnout> = (0..links.len()).map(|_| if ctx.t.chance(1, 16) { Turnout::Short } else { *ctx.t.pick(&[Turnout::Full, Turnout::Enough]) }).collect();
        let mut d = sc.draft(&turnouts);
        let fin = links.last().unwrap().0;
        let mut slots: BTreeMap<alloy_primitives::B256, u64> = [(sc.cp(fin).root(), sc.w.snap(fin).slot)].into();
        match ctx.t.below(20) {
            1 => {
                ctx.fault("missing-slot-proof");
                d.slots.clear();
                slots.clear();
            }
            2 => {
                ctx.fault("other-slot-proof");
                d.slots = vec![simwire::prove(&sc.w.snap(fin + 1).header, &[8])];
                slots.clear();
            }
            3 => {
                ctx.fault("altered-trusted-root");
                d.cs.1 = Checkpoint::new(d.cs.1.epoch(), sc.r.bytes::<32>().into());
            }
            4 => {
                // an unverified justified root is allowed, and must be stated as it is
                ctx.fault("altered-justified-root");
                d.cs.0 = Checkpoint::new(d.cs.0.epoch(), sc.r.bytes::<32>().into());
            }
            _ => {}
        }
        let Ok(mut bytes) = d.encode() else { return Ok(()) };
        if ctx.t.chance(1, 12) {
            ctx.fault("input-truncated");
            let n = ctx.t.idx(bytes.len());
            bytes.truncate(n);
        }
        let want = if d.cs.1.root() != sc.s.root() {
            Err("unknown trusted block".to_string())
        } else {
            reference(&sc, &d, &slots)
        };
        let whole = d.encode().map(|b| b == bytes).unwrap_or(false);
        let want = if whole { want } else { Err("truncated input".to_string()) };
        let got = run::<E>(&sc.w, net, &bytes);
        ctx.steps += 1;
        ctx.sim_ms += (links.last().unwrap().1 - w.f) * spe::<E>() * 12_000;
        ctx.cover_of(&(round, links.len(), want.is_ok(), got.is_ok(), net.map(|n| n == Net::Mainnet), w.j - w.f));
        ctx.log(format!("round {round}: trusted {} justified {}, links {links:?}, expected {want:?}", w.f, w.j));
        let journal = match (got, want) {
            (Err((_, left)), Err(_)) => {
                must!(left.is_empty(), "output-without-success", "a failed run committed {} bytes", left.len());
                ctx.count("failed_runs");
                return Ok(());
            }
            (Err((why, _)), Ok(w)) => simkit::violate!("valid-run-failed", "the guest failed ({why}) on an input that leads to {w:?}"),
            (Ok(_), Err(e)) => simkit::violate!("journal-without-verification", "a journal was committed although: {e}"),
            (Ok(b), Ok(w)) => {
                let Some(p) = parse_journal(&b) else {
                    simkit::violate!("journal-shape", "journal of {} bytes does not parse", b.len())
                };
                must!(p.pre == d.cs, "journal-pre-state", "journal starts from {:?}, the run started from {:?}", p.pre, d.cs);
                must!((p.post, p.slot) == w, "journal-post-state", "journal states {:?} slot {}, verified {w:?}", p.post, p.slot);
                if let Some(l) = last {
                    if d.cs == l {
                        ctx.count("linked_journals");
                    }
                }
                last = Some(p.post);
                b
            }
        };
        reader(ctx, &journal, d.cs, last.unwrap())?;
        let (pj, pf) = last.unwrap();
        if ctx.t.chance(7, 8) && d.cs.0 == sc.cp(w.j) {
            w = World::with(w.spec, w.cfg, w.gvr, pf.epoch().as_u64(), pj.epoch().as_u64(), w.seed, w.profile);
        } else {
            break;
        }
    }
    Ok(())
}

fn word(b: &[u8]) -> u64 {
    u64::from_be_bytes(b[24..32].try_into().unwrap())
}

/// What a reader makes of the two states, intact and damaged on the way.
fn reader(ctx: &mut Ctx, j: &[u8], pre: (Checkpoint, Checkpoint), post: (Checkpoint, Checkpoint)) -> RunResult {
    let n = ConsensusState::abi_encoded_size();
    must!(n == 128, "state-size", "encoded state size is {n}");
    for (bytes, want) in [(&j[..128], pre), (&j[128..256], post)] {
        let got = catch(|| ConsensusState::abi_decode(bytes));
        let Ok(Ok(s)) = got else { simkit::violate!("journal-unreadable", "a committed state does not decode: {got:?}") };
        must!((s.current_justified_checkpoint(), s.finalized_checkpoint()) == want, "journal-misread", "decoded {s:?}, verified {want:?}");
        must!(catch(|| s.abi_encode()).as_deref() == Ok(bytes), "journal-reencode", "{s:?} encodes differently than committed");
    }
    for _ in 0..4 {
        let mut b = if ctx.t.chance(1, 2) { j[..128].to_vec() } else { j[128..256].to_vec() };
        match ctx.t.below(9) {
            0 => {
                ctx.fault("bit-flip");
                let k = ctx.t.idx(128 * 8);
                b[k / 8] ^= 1 << (k % 8);
            }
            1 => {
                ctx.fault("truncated");
                let k = ctx.t.idx(128);
                b.truncate(k);
            }
            2 => {
                ctx.fault("extended");
                let k = 1 + ctx.t.idx(64);
                b.extend(vec![ctx.t.below(2) as u8 * 7; k]);
            }
            3 => {
                ctx.fault("swapped-checkpoints");
                b.rotate_left(64);
            }
            4 => {
                ctx.fault("zeroed");
                let k = ctx.t.idx(4);
                b[k * 32..k * 32 + 32].fill(0);
            }
            5 => {
                ctx.fault("all-zero");
                b.fill(0);
                if ctx.t.chance(1, 2) {
                    let k = ctx.t.idx(128);
                    b[k] = 1;
                }
            }
            6 => {
                ctx.fault("equal-epochs");
                let (l, r) = b.split_at_mut(64);
                l[..32].copy_from_slice(&r[..32]);
            }
            7 => {
                ctx.fault("random-bytes");
                let mut r = ctx.t.fork();
                r.fill(&mut b);
                for w in [0, 64] {
                    if ctx.t.chance(2, 3) {
                        b[w..w + 24].fill(0);
                    }
                }
            }
            _ => {
                ctx.fault("short-random");
                let mut r = ctx.t.fork();
                let n = r.idx(300);
                b = vec![0; n];
                r.fill(&mut b);
            }
        }
        let got = match catch(|| ConsensusState::abi_decode(&b)) {
            Ok(g) => g,
            Err(p) => simkit::violate!("reader-aborted", "decoding {} damaged bytes aborted: {p}", b.len()),
        };
        ctx.steps += 1;
        let Ok(s) = got else {
            ctx.count("decode_errors");
            // an intact encoding of an ordered state must be readable
            if b.len() == 128 && b[..24].iter().chain(&b[64..88]).all(|x| *x == 0) {
                let ordered = word(&b[64..96]) < word(&b[..32]) || b.iter().all(|x| *x == 0);
                must!(!ordered, "valid-refused", "a well-formed encoding of an ordered state was refused");
            }
            continue;
        };
        ctx.count("decode_ok");
        must!(b.len() >= 128, "short-accepted", "{} bytes were decoded to a state", b.len());
        let cp = |o: usize| Checkpoint::new(Epoch::new(word(&b[o..o + 32])), <[u8; 32]>::try_from(&b[o + 32..o + 64]).unwrap().into());
        must!(
            (s.current_justified_checkpoint(), s.finalized_checkpoint()) == (cp(0), cp(64)),
            "decoded-otherwise",
            "decoded {s:?}, the bytes say {:?} {:?}",
            cp(0),
            cp(64)
        );
        let ordered = cp(64).epoch() < cp(0).epoch() || s == ConsensusState::default();
        must!(ordered && s.is_valid(), "inconsistent-accepted", "an unordered state was accepted: {s:?}");
    }
    Ok(())
}
