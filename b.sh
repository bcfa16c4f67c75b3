#!/bin/bash
# developer helper: build one or more binaries and run the first
cd /verif/harness
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TARGET_DIR=/verif/target CARGO_TERM_COLOR=never
b=$1; shift
cargo build --offline -q --bin $b 2>&1 | grep -vE "^\s*(\||=)|warning" | grep -A12 -E "^error" | head -${LINES_MAX:-60}
[ ${PIPESTATUS[0]} -eq 0 ] && time /verif/target/debug/$b "$@"
