#!/bin/bash
# build.sh <package>...: builds the simulation binaries from /repo's current working tree.
set -e
root=$(cd "$(dirname "$0")" && pwd)
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$root/target CARGO_TERM_COLOR=never
export PATH=/root/.cargo/bin:$PATH RUSTC_WRAPPER= RUSTFLAGS= CARGO_INCREMENTAL=0
unset CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
cd "$root/sim"
mkdir -p "$CARGO_TARGET_DIR/release/.fingerprint"
# Content decides whether a crate of /repo is rebuilt, not file times.
for c in ssz-multiproofs core host methods chainspec; do
  [ -d /repo/$c ] || continue
  case $c in core) n=z-core ;; *) n=$c ;; esac
  stamp=$CARGO_TARGET_DIR/stamp-$n
  now=$(cd /repo/$c && find . -type f \( -name '*.rs' -o -name '*.yaml' -o -name '*.json' -o -name 'Cargo.toml' \) -not -path '*/target/*' -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)
  if [ "$(cat "$stamp" 2>/dev/null)" != "$now" ]; then
    for p in $n beacon_guest beacon-guest simcore simhost; do
      rm -rf "$CARGO_TARGET_DIR"/release/.fingerprint/"$p"-*
    done
    echo "$now" > "$stamp"
  fi
done
args=()
for p in "$@"; do args+=(-p "$p"); done
cargo build --offline --locked --release -q "${args[@]}" 2> "$CARGO_TARGET_DIR/build.log" || { cat "$CARGO_TARGET_DIR/build.log" >&2; exit 3; }
