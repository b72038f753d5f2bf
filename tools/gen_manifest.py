#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claimed checks."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
T = "deterministic simulation with fault injection: seeded search, "
CLAIMED = {
 "C06": (T + "Byzantine sender and corrupting channel against a sparse-tree model", "Seeded exploration of proof shapes, depths and corruptions; no exhaustive bound."),
 "C07": (T + "controlled fork/join schedules of the parallel builder against a tree model", "Seeded exploration of containers, request sets and work splits."),
 "C08": (T + "truncation, extension, bit flips, splices and crafted encodings with allocation accounting", "Seeded exploration; memory measured by a counting allocator."),
}
CLAIMED.update({
 "C01": (T + "Byzantine prover assembling inputs from really signed votes, judged by the votes really signed", "Seeded exploration of 21 attack kinds over simulated registries, networks and thresholds."),
 "C03": (T + "spliced, reordered, lost and repeated links against an executable reference machine", "Seeded exploration of link sequences, compared exactly with the reference machine."),
 "C04": (T + "chains of guest runs with a corrupting channel between the journal and its reader", "Seeded exploration; the guest library and both guest programs run in process."),
 "C05": (T + "tampering channel between witness builder and verifier, compared with the untampered run", "Seeded exploration of 20 tampering kinds at bit, node, tree and structure level."),
 "C10": (T + "made-up lookahead data at and around the limits against an independent statement of the limits", "Seeded exploration of patch sequences over simulated registries."),
 "C15": (T + "votes replayed across networks, forks, domains and slots around fork transitions", "Seeded exploration over fork schedules, networks and vote types; both guest programs run."),
 "C16": (T + "link targets at and around the lookahead limit and fork range against the reference machine", "Seeded exploration of limits, fork ranges and schedules, exact in both directions."),
 "C17": (T + "applied and reconstructed links over simulated histories and arbitrary state pairs", "Seeded exploration of state pairs including extreme epochs and genesis."),
})
CLAIMED.update({
 "C02": (T + "an honest operator following simulated beacon chains through the whole pipeline, step by step, with no step allowed to fail", "Seeded exploration of simulated chains (reorgs, gaps, late votes, ejections, exits, forks); one recorded finding (skipped boundary with an activation)."),
 "C09": (T + "host-built inputs over simulated histories, with every validator set, committee and seed compared with the simulated chain", "Seeded exploration of simulated chains and registries."),
 "C14": (T + "a lying beacon node that rewrites replies, judged by what the guest then accepts", "Seeded exploration of lies about blocks, states, headers, finality and votes."),
 "C18": (T + "vote collection over simulated chains with reorderings of replies and faults in the network, against the votes the chain included", "Seeded exploration of chains, links and fault schedules."),
 "C20": (T + "the same build repeated under different reply delays, hash seeds, work splits and transient faults, compared byte by byte", "Seeded exploration of schedules per simulated chain."),
})
CLAIMED.update({
 "C11": (T + "sessions over an interposed disk with crashes, power losses, torn and lost writes, full disks and I/O errors, each followed by a restart", "Seeded exploration of operation sequences, fault points and disk images after a crash."),
 "C12": (T + "lookup sequences on stacks of caches with API failures, a growing chain and restarts, against the simulated chain", "Seeded exploration of lookup sequences, cache contents and faults."),
 "C13": (T + "the real client behind a simulated transport with status codes, losses, truncations, malformed content and timings", "Seeded exploration of requests, treatments and concurrent schedules; transport timestamps judge the rate limit."),
})
CLAIMED.update({
 "C19": (T + "processes of the command line program started, killed and restarted over one data directory against a growing chain, a faulty or lying node and a faulty disk", "Seeded exploration of session sequences; every recorded result is run through the network's guest program and compared with the simulated chain."),
})
BINS = ["simmp", "simcore", "simhost"]
exec(open(os.path.join(root, "tools", "claims.py")).read()) if os.path.exists(os.path.join(root, "tools", "claims.py")) else None
m = {
 "version": 1,
 "setup_cmd": "/verif/build.sh " + " ".join(BINS),
 "checks": [{"property": p, "quick_cmd": f"/verif/check.sh {p} quick", "thorough_cmd": f"/verif/check.sh {p} thorough",
   "evidence_file": f"evidence/{p}.json", "technique": CLAIMED[p][0], "level": "exploration", "level_note": CLAIMED[p][1]} for p in props if p in CLAIMED],
 "not_applicable": [{"property": p, "reason": "not claimed yet: its simulation is still being built"} for p in props if p not in CLAIMED],
 "notes": "Hooks: none in /repo; the seams are the external crates, which /verif/sim/stubs replaces. See DESIGN.md.",
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
