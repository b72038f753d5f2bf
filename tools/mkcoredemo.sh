#!/bin/bash
# mkcoredemo.sh <id>: lays out /verif/seeded/<id> with everything a demonstration against /repo/core needs.
# main.rs is read from stdin.
set -e
root=$(cd "$(dirname "$0")/.." && pwd)
d=$root/seeded/$1
rm -rf "$d/sim"
mkdir -p "$d/sim/demo/src"
for x in stubs mirror kit simtree wire; do cp -r "$root/sim/$x" "$d/sim/$x"; done
# only what /repo/core and the guest need
for x in $(ls "$d/sim/stubs"); do case $x in alloy-sol-types|beacon_types|bls|ethereum_ssz|rayon-core|risc0-zkvm|safe_arith|serde_arrays|serde_with|serde_with_macros|serde_yaml|ssz_rs|ssz_rs_derive|ssz_types|swap_or_not_shuffle|tree_hash) ;; *) rm -rf "$d/sim/stubs/$x";; esac; done
for x in $(ls "$d/sim/mirror"); do case $x in beacon_guest|chainspec|ssz-multiproofs|z-core) ;; *) rm -rf "$d/sim/mirror/$x";; esac; done
cp "$root/sim/simcore/src/world.rs" "$root/sim/simcore/src/scene.rs" "$root/tools/coredemo/base.rs" "$d/sim/demo/src/"
sed -e 's/^name = "simcore"/name = "demo"/' "$root/sim/simcore/Cargo.toml" > "$d/sim/demo/Cargo.toml"
sed -e 's/^members = .*/members = ["kit", "simtree", "stubs\/*", "mirror\/*", "wire", "demo"]/' "$root/sim/Cargo.toml" > "$d/sim/Cargo.toml"
cp "$root/sim/Cargo.lock" "$d/sim/Cargo.lock"
(echo '#![allow(dead_code, unused_imports)]'; echo 'mod base; mod scene; mod world;'; echo 'use base::*; use scene::*; use world::*; use std::collections::{BTreeMap, BTreeSet};'; cat) > "$d/sim/demo/src/main.rs"
cat > "$d/demo.sh" <<'S'
#!/bin/bash
# Run in /repo: builds the small program under sim/demo against the tree and runs it.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
cp -r "$here/sim" "$work/sim" || exit 2
cd "$work/sim"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$work/target RUSTFLAGS= CARGO_PROFILE_RELEASE_OPT_LEVEL=1
timeout 280 cargo run -q --offline --release -p demo > "$work/out" 2>&1
rc=$?
[ $rc = 0 ] || tail -20 "$work/out"
exit $rc
S
chmod +x "$d/demo.sh"
