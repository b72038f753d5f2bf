#!/bin/bash
# mkdemo.sh <id> [builder]: lays out /verif/seeded/<id> with a self-contained demonstration crate.
# The demonstration source is then written to seeded/<id>/src/main.rs.
set -e
root=$(cd "$(dirname "$0")/.." && pwd)
d=$root/seeded/$1
mkdir -p "$d/src" "$d/mp"
sed -e '/^# Builds/d' "$root/sim/mirror/ssz-multiproofs/Cargo.toml" > "$d/mp/Cargo.toml"
feat=
members='"."'
if [ "$2" = builder ]; then
  mkdir -p "$d/stubs"
  cp -r "$root/sim/stubs/ssz_rs" "$root/sim/stubs/ssz_rs_derive" "$root/sim/simtree" "$d/stubs/"
  sed -i 's#\.\./\.\./simtree#../simtree#' "$d/stubs/ssz_rs/Cargo.toml"
  sed -i 's#\.\./\.\./stubs#../stubs#' "$d/mp/Cargo.toml"
  feat=', features = ["builder"]'
  extra='ssz_rs = { path = "stubs/ssz_rs" }'
else
  sed -i -e '/^ssz_rs/d' -e '/^builder/s/"dep:ssz_rs", //' "$d/mp/Cargo.toml"
  extra=
fi
cat > "$d/Cargo.toml" <<E
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
ssz-multiproofs = { path = "mp"$feat }
serde = { version = "1", features = ["derive"] }
serde_json = "1"
bincode = "1.3"
sha2 = "0.10"
bitvec = { version = "1", features = ["serde"] }
$extra
E
sed -i 's#\.\./\.\./stubs#../stubs#' "$d/mp/Cargo.toml"
cp "$root/sim/Cargo.lock" "$d/Cargo.lock"
cat > "$d/demo.sh" <<'E'
#!/bin/bash
# Run in /repo: builds the small program beside this file against the tree and runs it.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
cp -r "$here/." "$work/src_copy" || exit 2
cd "$work/src_copy"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$work/target RUSTFLAGS=
timeout 250 cargo run -q --offline --release > "$work/out" 2>&1
rc=$?
tail -20 "$work/out"
exit $rc
E
chmod +x "$d/demo.sh"
