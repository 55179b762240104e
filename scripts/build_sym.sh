#!/bin/bash
# usage: build_sym.sh : overlay + LLVM IR of the repository and its dependencies
set -e
cd "$(dirname "$0")/.."
. scripts/mainrs.sh
python3 overlay/gen.py build/overlay.new
python3 scripts/sync.py build/overlay.new build/overlay
cp /repo/Cargo.lock harness-sym/Cargo.lock
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTC_BOOTSTRAP=1
export RUSTFLAGS="--emit=llvm-ir,link -Zthreads=8 -C target-cpu=x86-64 -Zunstable-options -C symbol-mangling-version=legacy --cfg vp_sym --cfg panacea_verif -A warnings"
export CARGO_TARGET_DIR=${VP_SYM_TARGET:-$PWD/build/sym}
mkdir -p "$CARGO_TARGET_DIR"
. scripts/stale.sh
stale "$CARGO_TARGET_DIR" panacea vharness
cd harness-sym
cargo build --offline -q ${VP_CARGO_ARGS} -Zbuild-std=std,panic_abort -Zbuild-std-features= --target x86_64-unknown-linux-gnu --message-format=json > "$CARGO_TARGET_DIR/build.json" || {
  python3 -c 'import json,sys
for l in open(sys.argv[1]):
    m = json.loads(l).get("message") or {}
    if m.get("level") == "error": sys.stderr.write(m["rendered"])' "$CARGO_TARGET_DIR/build.json"
  exit 1
}
python3 ../scripts/lllist.py "$CARGO_TARGET_DIR"
echo "$HASH" > "$CARGO_TARGET_DIR/.src-hash"
