//! Simulation of the host: chains, beacon nodes, networks, disks and processes around the real code.
mod api;
mod build;
mod chain;
mod cli;
mod client;
mod follow;
mod lies;
mod store;
mod sys;
use simkit::{Check, DEFAULT_CHECK};

const REAL: &[&str] = &["host crate (/repo/host)", "z-core (/repo/core)", "ssz-multiproofs (/repo/ssz-multiproofs)"];
const STUB: &[&str] = &[
    "tokio, reqwest, its middleware, governor, futures (simulated runtime, clock and network)",
    "ethereum-consensus and ssz_rs types (long vectors encoded sparsely)",
    "Lighthouse types, bls (ideal aggregate signatures), swap_or_not_shuffle",
    "file system calls and getrandom (interposed), beacon chain and node (simulated)",
];
const ASSUME: &[&str] = &["signatures are unforgeable and SHA-256 is collision free"];

fn base() -> Check {
    Check { real: REAL, stub: STUB, assumptions: ASSUME, quick_cap: 45, thorough_cap: 1500, ..DEFAULT_CHECK }
}

fn main() {
    sys::sweep();
    simkit::main(&[
    Check {
        id: "C02",
        rule: "a state is (distances of the links from the trusted epoch, epochs until finality shows, faults met, kind of state cache)",
        quick_runs: 6_000,
        thorough_runs: 1_000_000,
        run: follow::c02,
        expect_faults: &["refused", "timeout", "reset", "http-500", "broken-body", "cut-body", "not-json"],
        ..base()
    },
    Check {
        id: "C09",
        rule: "a state is (distances of the links from the trusted epoch, validators joined and left up to the compared epochs, whether the boundary slot is empty, epochs compared)",
        quick_runs: 6_000,
        thorough_runs: 1_000_000,
        run: follow::c09,
        ..base()
    },
    Check {
        id: "C18",
        rule: "a state is (distances of the links from the trusted epoch, whether the node is at the epoch of the new finality, whether votes were included late, faults met)",
        quick_runs: 6_000,
        thorough_runs: 1_000_000,
        run: follow::c18,
        expect_faults: &["refused", "timeout", "reset", "http-500", "broken-body", "cut-body", "not-json"],
        ..base()
    },
    Check {
        id: "C20",
        rule: "a state is (distances of the links from the trusted epoch, builds, digests of the orders of events)",
        quick_runs: 4_000,
        thorough_runs: 700_000,
        run: follow::c20,
        ..base()
    },
    Check {
        id: "C14",
        rule: "a state is (stage reached, kinds of lies told)",
        quick_runs: 5_000,
        thorough_runs: 900_000,
        run: lies::c14,
        expect_faults: &["other-chain", "other-slot", "stale-finality", "altered-state", "altered-block", "altered-header", "altered-finality", "absent", "wrong-version", "foreign-store", "shifted-store", "false-checkpoint"],
        ..base()
    },
    Check {
        id: "C11",
        rule: "a state is (kind of cache, faults injected, kill or power loss, file operations, states on disk after restart)",
        quick_runs: 30_000,
        thorough_runs: 3_000_000,
        run: store::c11,
        expect_faults: &["crash", "io-error", "no-space", "disk-full", "short-write", "short-read", "interrupted", "power-loss", "kill", "timeout", "broken-body"],
        ..base()
    },
    Check {
        id: "C12",
        rule: "a state is (kind of cache, whether the chain grows, kinds of operations, kinds of faults, states touched)",
        quick_runs: 30_000,
        thorough_runs: 3_000_000,
        run: store::c12,
        expect_faults: &["refused", "timeout", "reset", "http-500", "broken-body", "cut-body", "not-json"],
        ..base()
    },
    Check {
        id: "C13",
        rule: "a state is (kind of request, caller, treatment of the answer, outcome, status) or (rate limit, calls, order of events)",
        quick_runs: 40_000,
        thorough_runs: 5_000_000,
        run: client::c13,
        expect_faults: &["refused", "timeout", "reset", "http-500", "broken-body", "cut-body", "not-json", "status-404", "other-status", "wrong-version", "missing-member", "malformed", "truncated", "contradiction"],
        ..base()
    },
    Check {
        id: "C19",
        rule: "a state is (network, per session: continuous or not, disk faults, results in a row) or (network, mode, lines logged or outcome, faults met) or (lies, results)",
        real: &["host crate and command line program (/repo/host)", "z-core (/repo/core)", "ssz-multiproofs (/repo/ssz-multiproofs)", "guest library and both guest programs (/repo/methods/guest)", "chainspec with its configuration files (/repo/chainspec)"],
        quick_runs: 5_000,
        thorough_runs: 900_000,
        run: cli::c19,
        expect_faults: &["refused", "timeout", "reset", "http-500", "broken-body", "cut-body", "crash", "kill", "power-loss", "io-error", "no-space", "disk-full", "short-write", "altered-state", "other-chain"],
        ..base()
    }]);
}
