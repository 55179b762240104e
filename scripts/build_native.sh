#!/bin/bash
# usage: build_native.sh : native replay binary against /repo's current tree
set -e
cd "$(dirname "$0")/.."
. scripts/mainrs.sh
[ -d build/overlay/rayon-core ] || python3 overlay/gen.py build/overlay
cp /repo/Cargo.lock harness-native/Cargo.lock
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTFLAGS="--cfg panacea_verif -A warnings"
export CARGO_TARGET_DIR=${VP_NATIVE_TARGET:-$PWD/build/native}
. scripts/stale.sh
stale "$CARGO_TARGET_DIR" panacea vnative
cd harness-native
cargo build --offline -q
echo "$HASH" > "$CARGO_TARGET_DIR/.src-hash"
