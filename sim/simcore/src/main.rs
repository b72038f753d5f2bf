//! Simulation of a Byzantine prover, a faulty channel and the real verifier and guest programs.
mod attack;
mod ffg;
mod journal;
mod rules;
mod scene;
mod witness;
use simcore::{nets, world};
use simkit::{Check, DEFAULT_CHECK};

const REAL: &[&str] = &["z-core (/repo/core)", "ssz-multiproofs (/repo/ssz-multiproofs)", "guest library and both guest programs (/repo/methods/guest)", "chainspec with its configuration files (/repo/chainspec)"];
const STUB: &[&str] = &["Lighthouse types, bls (ideal aggregate signatures), swap_or_not_shuffle, tree_hash, ssz types (written from the specification)", "zkVM (guest runs in process)", "prover, chain and channel (simulated)"];
const ASSUME: &[&str] = &["signatures are unforgeable and SHA-256 is collision free", "validator balances sum to far less than 2^64"];

fn base() -> Check {
    Check { real: REAL, stub: STUB, assumptions: ASSUME, quick_cap: 40, thorough_cap: 1200, ..DEFAULT_CHECK }
}

fn main() {
    simkit::main(&[
        Check {
            id: "C01",
            rule: "a state is (stage of the verdict, sequence of attacks, vote groups delivered, links planned)",
            quick_runs: 60_000,
            thorough_runs: 5_000_000,
            run: attack::c01,
            expect_faults: &["relabel-target", "unsigned-bits", "foreign-domain", "hide-validators", "claim-exits", "substitute-keys"],
            ..base()
        },
        Check {
            id: "C03",
            rule: "a state is (sequence of link epochs relative to the trusted epoch, justified distance, lookahead limit, whether it must be accepted)",
            quick_runs: 60_000,
            thorough_runs: 5_000_000,
            run: rules::c03,
            expect_faults: &["reordered-links", "dropped-link", "repeated-link", "lost-votes", "backward-link", "alternative-target"],
            ..base()
        },
        Check {
            id: "C04",
            rule: "a state is (round in the chain of runs, links, expected and actual verdict, network, justified distance)",
            quick_runs: 40_000,
            thorough_runs: 4_000_000,
            run: journal::c04,
            expect_faults: &["bit-flip", "truncated", "swapped-checkpoints", "missing-slot-proof", "all-zero"],
            ..base()
        },
        Check {
            id: "C05",
            rule: "a state is (stage of the verdict, tampering steps, reason of rejection)",
            quick_runs: 60_000,
            thorough_runs: 5_000_000,
            run: witness::c05,
            expect_faults: &["bit-flip", "hide-validator", "edit-key", "splice-other-witness", "registry-length", "slot-of-other-block"],
            ..base()
        },
        Check {
            id: "C10",
            rule: "a state is (within limits, accepted, kind of claims, number of patches, gaps, number of exits, first patched epoch, violated limit)",
            quick_runs: 60_000,
            thorough_runs: 5_000_000,
            run: witness::c10,
            expect_faults: &["one-exit-too-many", "too-early-exit", "changed-exit", "moved-in-next-patch", "trusted-genesis"],
            ..base()
        },
        Check {
            id: "C15",
            rule: "a state is (control or wrong dimension, victim step, forks of the targets, support of counted votes, network)",
            quick_runs: 40_000,
            thorough_runs: 4_000_000,
            run: rules::c15,
            expect_faults: &["fork-version", "genesis-root", "domain-type", "slot-after-epoch", "index", "input-of-other-network", "contradicting-state-fork"],
            ..base()
        },
        Check {
            id: "C16",
            rule: "a state is (limit, distance of the last target, justified distance, forks of the targets, supported versions, whether it must be accepted)",
            quick_runs: 50_000,
            thorough_runs: 4_000_000,
            run: rules::c16,
            expect_faults: &["window-boundary", "fork-boundary"],
            ..base()
        },
        Check {
            id: "C17",
            rule: "a state is (verdict, justified, finalized and gap distances of the pair, whether the finalized checkpoint was the justified one)",
            real: &["consensus state of z-core (/repo/core)"],
            stub: &["Lighthouse epoch and checkpoint types"],
            assumptions: &[],
            quick_runs: 300_000,
            thorough_runs: 30_000_000,
            run: ffg::c17,
            expect_faults: &["arbitrary-pair", "genesis-start", "backward-target"],
            ..base()
        },
    ]);
}
