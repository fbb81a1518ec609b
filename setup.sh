#!/bin/bash
# Build everything the checks run, from /repo's working tree.
cd "$(dirname "$0")" || exit 1
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
export CARGO_TARGET_DIR=${CARGO_TARGET_DIR:-$PWD/target}
mkdir -p evidence replays
cd harness && cargo build --offline -q --workspace
