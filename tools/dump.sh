#!/bin/bash
# usage: dump.sh [full] -> writes the MIR dumps of /repo's current tree to $CACHE/mir (full: $CACHE/mirfull, with the parts that need the
# garbling crates, type-checked against stubs/), skipped when nothing it reads has changed
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
CACHE=${VERIF_CACHE:-$V/.cache}
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTUP_TOOLCHAIN RUSTFLAGS CARGO_TARGET_DIR
S=${1:+full}; WS=$CACHE/ws$S; MIR=$CACHE/mir$S
mkdir -p "$CACHE"
exec 9>"$CACHE/lock"; flock 9
python3 "$V/tools/view.py" "$WS" $S
# content hash of everything the dump depends on (the view is symlinks into /repo and filtered copies)
H=$( { cd "$WS" && find -L . -type f -not -path './test_vectors/*' -print0 | LC_ALL=C sort -z | xargs -0 sha256sum; cd "$V/mirdump" && find . -type f -not -path './target/*' -print0 | LC_ALL=C sort -z | xargs -0 sha256sum; sha256sum "$V/tools/dump.sh"; find "$V/stubs" -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum; rustc +nightly -V; } | sha256sum | cut -d' ' -f1)
if [ -f "$MIR/stamp" ] && [ "$(cat "$MIR/stamp")" = "$H" ] && [ -s "$MIR/mpc_core.json" ]; then exit 0; fi
SYS=$(rustc +nightly --print sysroot)
(cd "$V/mirdump" && CARGO_TARGET_DIR="$CACHE/mirdump" cargo +nightly build --offline -q)
mkdir -p "$MIR"
find "$MIR" -name '*.json' -delete; rm -f "$MIR/stamp"
# the local crates are always compiled again: cargo's own freshness test goes by time stamps
for c in mpc-core mpc-net co-circom-types co-groth16 co-plonk; do rm -rf "$CACHE/target/debug/build/$c" "$CACHE"/target/debug/.fingerprint/$c-*; done
export MIRDUMP_OUT="$MIR" RUSTC_WORKSPACE_WRAPPER="$CACHE/mirdump/debug/mirdump"
export LD_LIBRARY_PATH="$SYS/lib" CARGO_TARGET_DIR="$CACHE/target" CARGO_INCREMENTAL=0
export CARGO_PROFILE_DEV_OVERFLOW_CHECKS=false CARGO_PROFILE_DEV_DEBUG=0
export CARGO_PROFILE_DEV_DEBUG_ASSERTIONS=false RUSTFLAGS="--cap-lints=allow -Awarnings"
cd "$WS"
cargo +nightly check --offline -q --all-features --lib -p mpc-net -p mpc-core -p co-circom-types -p co-groth16 -p co-plonk 2>"$CACHE/cargo.log" || { grep -v "^warning" "$CACHE/cargo.log" | tail -60; exit 3; }
for c in mpc_net mpc_core co_circom_types co_groth16 co_plonk; do [ -s "$MIR/$c.json" ] || { echo "no dump of $c"; exit 4; }; done
echo "$H" > "$MIR/stamp"
