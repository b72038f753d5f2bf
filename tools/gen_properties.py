#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text stays diffable)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe_at=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe_at: a["observe_at"] = [observe_at]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

V="core/src/verify.rs"; G="core/src/input_reader/guest_input_reader.rs"; CS="core/src/consensus_state.rs"
MP="ssz-multiproofs/src/multiproof.rs"; MB="ssz-multiproofs/src/builder.rs"

p("C01","Finality advances only with enough honest stake, whatever the prover supplies",
  "When verification of an input succeeds, every justification step it applied was signed, for exactly that source and target, by unslashed validators that are active at the target epoch and whose combined effective balance reaches the configured fraction of the total active balance, and in any case two thirds of it. The validator set is the one committed to by the trusted finalized block, adjusted only by the bounded lookahead data. No input supplied by an untrusted prover can make a checkpoint with less support justified or finalized.",
  ["inputs","histories","fault_sequences"],
  "All chain histories (participation, slashings, exits, activations, skipped slots, forks), all attestation sets an adversary can assemble from really signed votes, and all witness mutations.",
  "The repository's sync tests follow one honest harness chain at a few participation levels; no test feeds attacker-assembled votes (duplicates, votes for other links, slashed voters, wrong committee bits, stale validators) and the tests of the verifier do not even build offline.",
  [V,"core/src/attestation.rs","core/src/committee_cache.rs",G],
  [("group votes by link and check threshold",V+":verify"),("per-attestation checks",V+":process_attestation"),("attesting index expansion","core/src/attestation.rs:get_attesting_indices"),("threshold constants","core/src/config.rs")],
  [("participating validators","union of signers for one link",V)], "return value of verify / committed journal", False)

p("C02","An honest, sufficiently attested chain can always be followed to its finality",
  "For every chain whose votes satisfy the documented preconditions, starting from any of its finalized checkpoints, the input built from an honest beacon node verifies, and repeating this reaches the checkpoint the chain itself finalized. Transient API failures and delays only postpone progress; once they stop, progress resumes within a bounded number of attempts.",
  ["histories","schedules","fault_sequences"],
  "All honest chain histories (skipped slots, empty epochs, missed justifications followed by recovery, slashings, activations, exits, fork transition) and all finite sequences of API faults.",
  "Liveness over arbitrary histories and fault sequences: the existing sync tests cover about a dozen scripted scenarios on one chain shape without faults, and need a network to build.",
  ["host/src/input_reader/preflight_input_reader.rs","host/src/input_reader/host_input_reader.rs",V,G],
  [("build input","host/src/input_reader/preflight_input_reader.rs:to_input"),("collect votes","host/src/input_reader/host_input_reader.rs"),("verify",V+":verify")],
  None,"tracked consensus state after each build+verify step", False)

p("C03","Each accepted input performs exactly one finalization along adjacent links",
  "A successful verification moves the trusted state through a contiguous chain of justified links that starts at its current justified checkpoint, and the chain ends with exactly one finalization, the very step at which a justified checkpoint is followed by a justified checkpoint of the next epoch. Inputs with zero finalizations, with further steps after one, or with gaps, repeats or backward links are rejected. The resulting state is always ordered: the finalized epoch is below the justified epoch and both never decrease.",
  ["histories","inputs"],
  "All orders, repetitions, omissions and splices of supermajority-backed links, for all starting states.",
  "The unit table has eleven fixed transitions on the pure function; which sequences of link groups the verifier accepts end to end is a property of all histories.",
  [V,CS],
  [("one new finalization only",V+":verify"),("transition rule",CS+":state_transition")],
  [("consensus state","current justified and finalized checkpoint",CS)],"post state of verify", False)

p("C04","The public journal states exactly what was verified, and can be chained",
  "The journal committed by the guest decodes to the state the verification started from, the state it ended in, and the slot of the newly finalized block, so journals of consecutive runs link up without gaps. It is produced only when verification succeeded. Truncated or inconsistent encodings of a state are reported as errors and never abort the reader, and a decoded state always carries exactly the epochs and roots present in the encoding.",
  ["inputs","histories","fault_sequences"],
  "All verified histories and all corruptions of encoded states and journals on their way to a consumer.",
  "Round-trips on sampled states cannot cover all corruptions, nor that the journal and the verified transition agree on every history; the guest crate is never built by the tests.",
  ["methods/guest/src/lib.rs","core/src/abi.rs",CS],
  [("journal","core/src/abi.rs:Journal"),("commit","methods/guest/src/lib.rs:entry"),("decode",CS+":abi_decode")],
  None,"committed journal bytes", False)

p("C05","Every chain fact the guest uses is authenticated by the trusted block root",
  "All chain data that influences a verification (state root, slot, fork, genesis validators root, each validator's key, balance, slashed flag, and epochs, the registry length, exit queue epochs, the finalized block's slot) equals the data committed under the trusted or newly finalized block root. Any alteration, omission, duplication, reordering or substitution of that data in transit, including replays from other blocks or states, leads to rejection and never to a different outcome.",
  ["inputs","fault_sequences"],
  "All byte-level, bit-level and structure-aware alterations of a serialized witness, including splicing parts of witnesses from other points of the history.",
  "There is an exponential space of alterations; the only existing test round-trips an empty input.",
  [G,MP,"core/src/guest_gindices.rs","core/src/bls.rs","core/src/serde_utils.rs"],
  [("root chain checks",G+":into_reader"),("registry extraction",G+":extract_validators_multiproof"),("public key binding","core/src/bls.rs:has_compressed_chunks")],
  None,"accepted reader contents, verify result", False)

p("C06","A verified multiproof reports only true tree nodes at their true position",
  "If a multiproof verifies against a root, every value it reports, by iteration or by lookup, is the node of that tree at exactly the reported generalized index, and asking for the next value at some index never yields a value from another index. This holds for every byte string a dishonest sender may deliver, including proofs of unusual shape or extreme depth.",
  ["inputs","fault_sequences"],
  "All trees, all proof shapes and depths, all in-flight corruptions and deliberately crafted descriptors, masks and data.",
  "One unit test checks the index iterator on one descriptor; soundness quantifies over all adversarial encodings.",
  [MP],
  [("root computation",MP+":calculate_compact_multi_merkle_root"),("position computation",MP+":GIndexIterator"),("value selection",MP+":values/get/next_assert_gindex")],
  None,"verify, values, nodes, get, next_assert_gindex", False)

p("C07","Built multiproofs are complete, verify, and do not depend on the schedule",
  "For every container and every non-empty set of provable positions none of which lies above another, the built multiproof verifies against the container's root, reports exactly the requested positions with their values in tree order, and still does so after being serialized and delivered. The result is identical for every order in which positions are registered and for every way parallel work is split and interleaved.",
  ["inputs","schedules","configurations"],
  "All containers, all valid request sets, all work splits and interleavings of the parallel builder, all supported encodings.",
  "The two existing builder tests prove one leaf of a default state each and are not compiled in the offline build; parallel schedules are not controlled at all.",
  [MB,MP],
  [("helper selection",MB+":compute_proof_indices_and_value_mask"),("tree order",MB+":cmp_binary_lexicographically"),("shape encoding",MB+":compute_proof_descriptor"),("parallel node lookup",MB+":build")],
  None,"build result, verify, values", False)

p("C08","Any delivered multiproof gets a verdict; the size hint never changes it",
  "Every byte sequence that decodes to a multiproof leads to acceptance or a reported error in time and memory bounded by its size: checking it never aborts, loops, or allocates according to numbers chosen by the sender. The advisory stack-size value carried in the proof has no influence on the verdict or on the reported values.",
  ["inputs","fault_sequences"],
  "All truncations, extensions, bit flips, splices and crafted encodings of proofs, and all values of the size hint.",
  "The tests only deliver intact proofs.",
  [MP],
  [("root computation",MP+":calculate_compact_multi_merkle_root"),("hint use",MP+":calculate_root")],
  None,"verify / calculate_root result", False)

p("C09","Prover, verifier and chain agree on validators, committees and seeds",
  "For every epoch within the lookahead window, the active validators (indices and keys), the shuffling seed and the resulting committees that the verifier derives from the trusted state plus lookahead data equal those the beacon chain itself uses in that epoch, and those the input builder used; balances and slashed flags are those recorded in the trusted state. Pending activations and exits between the trusted and the target epoch are accounted for exactly as the chain does.",
  ["histories","configurations"],
  "All registry histories (deposits, activations, exits, slashings, consolidations) between trusted and target epoch, all finalization distances, with and without skipped slots.",
  "Existing tests sample two or three registry histories with default-sized registries and need a network to build.",
  [G,"host/src/input_reader/host_input_reader.rs","host/src/input_reader/preflight_input_reader.rs","host/src/state_patch_builder.rs","core/src/committee_cache.rs","core/src/state_patch.rs","core/src/input_reader.rs"],
  [("registry update replay",G+":process_registry_updates"),("active filter","core/src/state_patch.rs:is_active_validator"),("seed","core/src/input_reader.rs:get_seed"),("diffs","host/src/state_patch_builder.rs")],
  None,"active_validators, get_seed, committee lookups", False)

p("C10","Untrusted lookahead data can only remove validators within the exit limits",
  "Lookahead data is accepted only if it concerns no epoch before the trusted one and every claimed exit is of a known, not yet exiting validator, no earlier than the earliest exit epoch the protocol allows after the trusted state, and within the exit balance churn. A claimed exit never adds a validator, never changes balances or keys, and never shortens or prolongs an exit already recorded in the trusted state.",
  ["inputs","histories"],
  "All sequences of lookahead patches, over all registries and all starting exit-queue states.",
  "The bound ranges over all patch sequences and registries; no existing test supplies dishonest lookahead data.",
  [G,"core/src/state_patch.rs"],
  [("plausibility checks",G+":validate_state_patches"),("churn",G+":get_balance_churn_limit")],
  None,"into_reader result and active_validators", False)

p("C11","The on-disk state cache survives crashes and disk faults at any point",
  "After a crash, power loss, full disk or I/O error at any point while beacon states are being cached, a restarted process either finds a complete, correct copy of a state or none, and in the latter case obtains it again from the API. A state that was stored stays available until it is cleaned. A damaged or partial file is never served as a state and never makes a state permanently unavailable; cleaning the cache removes exactly the states before the given slot.",
  ["crash_points","fault_sequences","histories"],
  "All crash points between individual file-system operations, all short/torn writes, lost unsynced data, full disk and I/O errors, over sequences of store, load and clean operations.",
  "No existing test touches the file cache at all.",
  ["host/src/state_provider/file_provider.rs","host/src/state_provider/persistant_api_provider.rs"],
  [("store","host/src/state_provider/file_provider.rs:save_state"),("load","host/src/state_provider/file_provider.rs:state_at_slot"),("clean","host/src/state_provider/file_provider.rs:clear_states_before"),("fallback","host/src/state_provider/persistant_api_provider.rs")],
  [("state files","one SSZ file per slot","host/src/state_provider/file_provider.rs")],"state_at_slot results across restarts", False)

p("C12","State caches are transparent: same answers as the chain, in any call order",
  "Whatever sequence of lookups (by slot, by epoch boundary, by checkpoint) is made, and whatever is already cached in memory or on disk, each lookup returns the state the chain has at that slot, or for a skipped epoch boundary or checkpoint the state of the latest block before it, exactly as an uncached provider would; absent stays absent and a later successful retry is not masked by an earlier failure.",
  ["histories","fault_sequences","schedules"],
  "All lookup sequences over all chains with skipped slots, all pre-existing cache contents, with API failures interleaved.",
  "No test compares cached against uncached lookups.",
  ["host/src/state_provider.rs","host/src/state_provider/cache_provider.rs","host/src/state_provider/persistant_api_provider.rs","host/src/state_provider/file_provider.rs"],
  [("memory cache","host/src/state_provider/cache_provider.rs"),("disk cache","host/src/state_provider/persistant_api_provider.rs"),("epoch/checkpoint lookup","host/src/state_provider.rs")],
  None,"StateProvider results", False)

p("C13","Beacon API answers are mapped faithfully under every network fault",
  "Only an explicit not-found answer for a header or a block is treated as absence; every other failure (server errors, timeouts, broken connections, truncated bodies, bodies that are malformed for every supported fork, a fork version that contradicts the content of a state, finality checkpoints that contradict each other) is reported as an error and never as absence or as different data. Intact answers are returned unchanged, and with a rate limit configured requests leave no faster than that limit.",
  ["fault_sequences","schedules"],
  "All sequences of responses, status codes, losses, delays, truncations and corruptions for all request kinds, and all request timings.",
  "The client has no tests; faults cannot be produced by unit tests without a controlled transport.",
  ["host/src/beacon_client.rs","host/src/chain_reader.rs"],
  [("http mapping","host/src/beacon_client.rs:http_get"),("not-found mapping","host/src/beacon_client.rs"),("rate limit","host/src/beacon_client.rs:RateLimitMiddleware")],
  None,"ChainReader results and transport timestamps", False)

p("C14","A lying beacon node or state store cannot change what is finalized",
  "An input built from a beacon node that answers with blocks, states or checkpoints of another chain, another slot, or altered content either fails to build, fails to verify, or verifies to a checkpoint really finalized by the chain the trusted checkpoint belongs to. The builder detects a trusted checkpoint whose block or state does not match its root instead of producing an input for different data.",
  ["fault_sequences","histories"],
  "All combinations of substituted, stale, altered or mixed API answers over all histories.",
  "Existing tests use an in-process honest chain.",
  ["host/src/input_reader/preflight_input_reader.rs","host/src/input_reader/host_input_reader.rs","host/src/beacon_client.rs",G],
  [("checkpoint lookup","host/src/input_reader/preflight_input_reader.rs"),("guest root checks",G+":into_reader")],
  None,"verify result against the true chain", False)

p("C15","Votes from another network, fork or vote type are never counted",
  "A vote counts only if it was signed under the domain of this network and of the fork in force at its target epoch, as attester vote, for a slot inside its target epoch and with the zero committee index required since Electra. Votes replayed from a network with other genesis data, from the other side of a fork transition, or from another message type are rejected.",
  ["inputs","histories","configurations"],
  "All fork schedules around the supported transition, all networks, and all cross-network, cross-fork and cross-domain replays.",
  "The existing tests never mix votes of two networks or forks.",
  [V,G,"chainspec/src/lib.rs"],
  [("domain",V+":is_valid_indexed_attestation"),("epoch and index checks",V+":process_attestation"),("state fork check",G+":into_reader"),("network parameters","chainspec/configs")],
  None,"verify result", False)

p("C16","Only epochs inside the lookahead window and supported forks are processed",
  "Verification accepts a vote target only if it is at most the configured number of epochs ahead of the trusted finalized epoch and its fork lies in the configured supported range. At the exact boundary it still accepts honest input, and one beyond it always rejects, for every configuration.",
  ["configurations","histories"],
  "All lookahead limits, fork ranges, fork schedules and distances between trusted checkpoint and targets.",
  "Boundary behaviour over all configurations is not sampled by tests (they use one very large limit).",
  [V,"core/src/config.rs"],
  [("link validation",V+":validate_link"),("fork support","core/src/config.rs:is_supported_version")],
  None,"verify result", False)

p("C17","Reconstructed links and applied links are exact inverses over all histories",
  "For any two states, if a connecting link is reported, applying it to the first state yields the second, no link is reported only for equal states, and every state pair produced by applying a link is recognised with that same link. Finality patterns the system does not support are reported as such and are never turned into a link; invalid or backward pairs are rejected.",
  ["histories","inputs"],
  "All pairs of valid states and all links, including extreme epochs, equal epochs with different roots, and states taken from beacon histories with missed epochs.",
  "A table of eleven cases and one recorded list of mainnet transitions are samples of an unbounded pair space.",
  [CS],
  [("apply",CS+":state_transition"),("reconstruct",CS+":transition_link")],
  None,"both functions' results", False)

p("C18","Vote collection is complete, ordered and independent of fetch interleaving",
  "The votes placed in an input are exactly those found in the canonical blocks that can carry votes for the links leading to the next finalization, restricted to those links and grouped in link order, with nothing lost when blocks are missing or answers arrive delayed or out of order. The links are those the chain itself used, even when several checkpoints are justified late or at once.",
  ["schedules","histories","fault_sequences"],
  "All chains with skipped slots and late inclusion, all interleavings and delays of concurrent block requests.",
  "Concurrent fetch order is not controlled by any test, and late-inclusion patterns are sampled by a few scripted chains.",
  ["host/src/input_reader/host_input_reader.rs"],
  [("block fetch and filtering","host/src/input_reader/host_input_reader.rs"),("link walk","host/src/input_reader/host_input_reader.rs")],
  None,"attestations of the built input", False)

p("C19","Continuous operation leaves a gap-free, consistent series of results",
  "Run continuously or once, with polling, API faults, lagging nodes, disk faults, crashes and restarts in between, the command line tool only records complete results (an input that the network's guest program accepts, and then the journal that the guest commits for it, never a journal without its input), each starting where the previous one ended, under the name of the epoch it starts from, and never a result for something the chain did not finalize. It stops or retries with an error instead of skipping an epoch or reporting success for unwritten results, and while the chain goes on finalizing, it goes on recording. While the chain has nothing new it asks again only after the retry interval. Its verification and sync commands report success only for what verified.",
  ["schedules","crash_points","fault_sequences","histories"],
  "All interleavings of chain progress and polling, all API and disk fault sequences, all crash and restart points.",
  "The command line tool has no tests.",
  ["host/src/bin/zkasper_cli.rs","methods/guest/src/lib.rs"],
  [("continuous loop","host/src/bin/zkasper_cli.rs"),("result files","host/src/bin/zkasper_cli.rs")],
  [("data directory","cached states, inputs and journals","host/src/bin/zkasper_cli.rs")],"files in the data directory and exit result", False)

p("C20","Building the same input twice gives the same bytes",
  "For a fixed chain and trusted state the built input is byte-for-byte identical whatever the thread schedule, the order and delay of API answers, the content of state caches, and process-level randomness. Encoding and decoding an input yields an equal input that verifies to the same result.",
  ["schedules","configurations","histories"],
  "All parallel schedules, response orders, cache contents and hash seeds, over all chains.",
  "No test builds an input twice, and none controls scheduling or hashing randomness.",
  ["host/src/input_reader/preflight_input_reader.rs","host/src/state_patch_builder.rs",MB,"core/src/serde_utils.rs"],
  [("input assembly","host/src/input_reader/preflight_input_reader.rs:to_input"),("encodings","core/src/serde_utils.rs")],
  None,"serialized input", False)

with open(OUT,"w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False)+"\n")
