#!/bin/bash
# Builds the extractor and the concrete replay (both offline). Checks rebuild what is missing or stale.
cd "$(dirname "$0")/.." || exit 1
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER= PATH="$HOME/.cargo/bin:/usr/local/bin:$PATH"
(cd vx && CARGO_TARGET_DIR=../target/vx cargo build --offline --release -q) || exit 1
(cd harness && CARGO_TARGET_DIR=../target/harness RUSTFLAGS=-Awarnings cargo build --offline -q)
(cd harness2 && CARGO_TARGET_DIR=../target/harness2 RUSTFLAGS="-Awarnings --cfg vx_hooks" cargo build --offline -q)
exit 0
