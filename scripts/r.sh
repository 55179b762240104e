#!/bin/bash
# dev helper: r.sh entry...
cd /verif; mkdir -p /tmp/cex
engine/target/release/vpsym --ll build/sym/x86_64-unknown-linux-gnu/debug/deps --cex /tmp/cex --timeout ${TO:-100} ${TR:+--trace} "$@" 2>&1 | cut -c1-${W:-2500}
