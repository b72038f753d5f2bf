#!/usr/bin/env python3
"""automutate.py <out> [--only REGEX] [--sample N] [--list]: systematic one-line changes of /repo's sources, each in a private copy (own mount
namespace), run against the checks of the properties anchored in that file until one notices. Survivors are listed for review."""
import sys, subprocess, os, re, threading, queue, time, random
S = os.environ.get("MUT_DIR", "/tmp/mut"); SLOTS = int(os.environ.get("SLOTS", "3")); ENV = os.environ.get("MUT_ENV", "SIM_CAP=25")
out = sys.argv[1]
def arg(n, d=None): return sys.argv[sys.argv.index(n) + 1] if n in sys.argv else d
FILES = {
 "core/src/verify.rs": "C01 C03 C16 C15 C04", "core/src/attestation.rs": "C01 C15", "core/src/bls.rs": "C01 C05", "core/src/committee_cache.rs": "C09 C01",
 "core/src/consensus_state.rs": "C17 C03 C04", "core/src/config.rs": "C16 C01", "core/src/abi.rs": "C04 C03", "core/src/guest_gindices.rs": "C05 C09",
 "core/src/input_reader.rs": "C09 C01 C15", "core/src/input_reader/guest_input_reader.rs": "C05 C10 C01 C09 C04 C15", "core/src/lib.rs": "C01 C09 C17 C10 C05",
 "core/src/serde_utils.rs": "C04 C05 C02", "core/src/state_patch.rs": "C10 C01 C09", "ssz-multiproofs/src/multiproof.rs": "C06 C08 C07",
 "ssz-multiproofs/src/builder.rs": "C07 C06", "host/src/beacon_client.rs": "C13 C19 C02", "host/src/conversions.rs": "C09 C18 C02",
 "host/src/input_reader/host_input_reader.rs": "C02 C18 C09 C14 C20", "host/src/input_reader/preflight_input_reader.rs": "C02 C09 C20 C14",
 "host/src/state_patch_builder.rs": "C09 C02", "host/src/state_provider.rs": "C12 C14 C02", "host/src/state_provider/cache_provider.rs": "C12 C02",
 "host/src/state_provider/file_provider.rs": "C11 C12", "host/src/state_provider/persistant_api_provider.rs": "C12 C11 C19", "host/src/bin/zkasper_cli.rs": "C19",
 "host/src/beacon_state.rs": "C12 C13 C14", "methods/guest/src/lib.rs": "C01 C04 C16", "chainspec/src/lib.rs": "C15 C16 C02"}
SWAP = [(" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), (" == ", " != "), (" != ", " == "), (" + ", " - "), (" - ", " + "), (" * ", " / "),
        (" / ", " * "), (" % ", " / "), (" && ", " || "), (" || ", " && "), ("true", "false"), ("false", "true"), (".min(", ".max("), (".max(", ".min("), (".any(", ".all("),
        (".all(", ".any("), ("safe_add", "safe_sub"), ("safe_sub", "safe_add"), ("+= ", "-= "), ("-= ", "+= "), ("..=", ".."), ("..", "..="), ("if !", "if "), (".filter(|", ".filter(|&_| true).filter(|"),
        (".is_none()", ".is_some()"), (".is_some()", ".is_none()"), ("source", "target"), ("target", "source"), ("previous", "current"), ("left", "right"),
        ("finalized_checkpoint", "current_justified_checkpoint"), ("current_justified_checkpoint", "finalized_checkpoint"), ("activation_epoch", "exit_epoch"), ("exit_epoch", "activation_epoch"),
        ("start_slot", "end_slot"), ("Some(", "None.or(Some("), ("min_", "max_"), ("max_", "min_")]
jobs = []; only = arg("--only")
for f, checks in FILES.items():
    src = open("/repo/" + f).read().split("\n")
    end = next((i for i, l in enumerate(src) if l.startswith("#[cfg(test)]") and i + 1 < len(src) and src[i + 1].startswith("mod tests")), len(src))
    skip = 0
    for i, l in enumerate(src[:end]):
        t = l.strip()
        if not t or re.fullmatch(r"[\w:, {}]*,", t) and src[i-1].strip().endswith((",", "{", "::{")) and i < 40 or t.startswith(("//", "#", "use ", "pub use", "mod ", "pub mod", "info!", "debug!", "trace!", "warn!", "error!", "///", "impl", "fn ", "pub fn", "async fn", "pub async fn", "const fn", "where", "\"")): continue
        if f.endswith("beacon_state.rs") and i < 560: continue
        muts = set()
        for a, b in SWAP:
            p = 0
            while (k := l.find(a, p)) >= 0:
                p = k + 1
                if l[:k].count('"') % 2: continue
                if a == ".." and (l[k:k+3] in ("..=", "..}") or l[k-1:k] == "."): continue
                if a.isidentifier() and (l[k-1].isalnum()): continue
                muts.add(l[:k] + b + l[k+len(a):])
        for m in re.finditer(r"(?<![\w.\"#])(\d+)(?![\w.]*\")(u64|usize|u32)?\b", l):
            if l[:m.start()].count('"') % 2: continue
            muts.add(l[:m.start()] + str(int(m.group(1)) + 1) + (m.group(2) or "") + l[m.end():])
            if int(m.group(1)) > 0: muts.add(l[:m.start()] + str(int(m.group(1)) - 1) + (m.group(2) or "") + l[m.end():])
        if t.endswith(";") and not t.startswith(("let ", "return", "pub ", "const ", "type ", "static ", "}", ")", ".", "break", "continue")): muts.add(l[:len(l)-len(t)] + "// " + t)
        if re.match(r"(assert|assert_eq|ensure)!\($|z_core::ensure!\($", t):
            j = next(j for j in range(i, len(src)) if src[j].strip() == ");" and src[j].index(")") == l.index(t[0]))
            muts.add(("DEL", j))
        m = re.match(r"(\s*(?:\} else )?if )(?!let )(.*)( \{)$", l)
        if m: muts.add(m.group(1) + "true || " + m.group(2) + m.group(3)); muts.add(m.group(1) + "false && (" + m.group(2) + ")" + m.group(3))
        for x in sorted(muts, key=str): jobs.append((f, i, x, checks.split()))

if only: jobs = [j for j in jobs if re.search(only, f"{j[0]}:{j[1]+1}")]
random.Random(7).shuffle(jobs)
quota = {"core/src/guest_gindices.rs": 24, "core/src/consensus_state.rs": 60, "host/src/beacon_state.rs": 16, "core/src/input_reader/guest_input_reader.rs": 130, "ssz-multiproofs/src/multiproof.rs": 80, "ssz-multiproofs/src/builder.rs": 45}
kept = []
for j in jobs:  # broad before deep: no more than this many of one file
    quota[j[0]] = quota.get(j[0], 1000) - 1
    if quota[j[0]] >= 0 or only: kept.append(j)
jobs = kept
if arg("--sample"): jobs = jobs[:int(arg("--sample"))]
done = set()
if os.path.exists(out): done = {tuple(l.split("\t")[1:3]) for l in open(out) if "\t" in l}
jobs = [j for j in jobs if (f"{j[0]}:{j[1]+1}", (j[2] if isinstance(j[2], str) else "DEL").strip()) not in done]
print(len(jobs), "mutants", flush=True)
if "--list" in sys.argv:
    for j in jobs: print(f"{j[0]}:{j[1]+1}: {j[2] if isinstance(j[2], str) else 'DEL'}")
    sys.exit()
q = queue.Queue(); [q.put(j) for j in jobs]
def sh(c): return subprocess.run(c, shell=True, capture_output=True, text=True)
lock = threading.Lock()
def worker(k):
    d = f"{S}/{k}"
    os.makedirs(d, exist_ok=True)
    sh(f"rm -rf {d}/repo; cp -a /repo {d}/repo; rm -rf {d}/repo/target; mkdir -p {d}/verif; cd /verif && find {d}/verif -mindepth 1 -maxdepth 1 ! -name target -exec rm -rf {{}} + ; tar c --exclude=./target --exclude=./.git . | tar x -C {d}/verif")
    if not os.path.exists(f"{d}/verif/target"): sh(f"cp -a /verif/target {d}/verif/target")
    while True:
        try: f, i, x, checks = q.get_nowait()
        except queue.Empty: return
        sh(f"git -C {d}/repo checkout -q -- .")
        p = f"{d}/repo/{f}"; s = open(p).read().split("\n")
        if isinstance(x, tuple): s[i:x[1]+1] = [""]
        else: s[i] = x
        open(p, "w").write("\n".join(s))
        verdict, by = "SURVIVED", ""
        for c in checks:
            r = sh(f"unshare -Urm bash -c 'mount --bind {d}/repo /repo; mount --bind {d}/verif /verif; cd /verif; {ENV} timeout 600 ./check.sh {c} quick'")
            if r.returncode == 1 and "VIOLATION" in r.stdout: verdict, by = "CAUGHT", c; break
            if r.returncode != 0:
                verdict = "NOBUILD" if "error" in r.stderr + r.stdout else "RC%d" % r.returncode; by = c; break
        with lock, open(out, "a") as o: o.write(f"{verdict}\t{f}:{i+1}\t{(x if isinstance(x, str) else 'DEL').strip()}\t{by}\n")
ts = [threading.Thread(target=worker, args=(k,)) for k in range(SLOTS)]
[t.start() for t in ts]; [t.join() for t in ts]
