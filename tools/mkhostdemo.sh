#!/bin/bash
# mkhostdemo.sh <id>: lays out /verif/seeded/<id> with everything a demonstration against /repo/host needs.
# The demonstration's main.rs is read from stdin, without its module declarations.
set -e
root=$(cd "$(dirname "$0")/.." && pwd)
d=$root/seeded/$1
rm -rf "$d/sim"
mkdir -p "$d/sim"
for x in stubs mirror kit rt simtree wire simcore simhost; do cp -r "$root/sim/$x" "$d/sim/$x"; done
rm -f "$d/sim/simcore/src/main.rs"
for m in $(cd "$root/sim/simhost/src" && ls); do case $m in main.rs|base.rs) rm -f "$d/sim/simhost/src/$m";; esac; done
rm -f "$d/sim/simhost/src/main.rs"
sed -e 's/^members = .*/members = ["kit", "simtree", "rt", "stubs\/*", "mirror\/*", "wire", "simcore", "simhost"]/' "$root/sim/Cargo.toml" > "$d/sim/Cargo.toml"
cp "$root/sim/Cargo.lock" "$d/sim/Cargo.lock"
cp "$root/tools/hostdemo/base.rs" "$d/sim/simhost/src/base.rs"
(cat <<'M'
#![allow(dead_code, unused_imports)]
mod api; mod base; mod build; mod chain; mod cli; mod client; mod follow; mod lies; mod store; mod sys;
use base::*; use build::*; use chain::*; use std::{sync::Arc, path::PathBuf, collections::{BTreeMap, BTreeSet}};
M
cat) > "$d/sim/simhost/src/main.rs"
cat > "$d/demo.sh" <<'S'
#!/bin/bash
# Run in /repo: builds the small program sim/simhost/src/main.rs against the tree and runs it.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
cp -r "$here/sim" "$work/sim" || exit 2
cd "$work/sim"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$work/target RUSTFLAGS= CARGO_PROFILE_RELEASE_OPT_LEVEL=1 TMPDIR=$work
timeout 290 cargo run -q --offline --release -p simhost > "$work/out" 2>&1
rc=$?
[ $rc = 0 ] || tail -20 "$work/out"
exit $rc
S
chmod +x "$d/demo.sh"
