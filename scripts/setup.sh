#!/bin/bash
# builds everything once (each check rebuilds what it needs from /repo's current tree)
set -e
cd "$(dirname "$0")/.."
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
(cd engine && cargo build --release --offline -q)
bash scripts/build_sym.sh
bash scripts/build_native.sh
