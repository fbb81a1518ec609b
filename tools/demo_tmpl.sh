#!/bin/bash
# Runs main.rs beside this file against the repository in the working directory.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
mkdir "$t/src"; cp "$here/main.rs" "$t/src/main.rs"
cat > "$t/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
musli = { path = "$repo/crates/musli", features = ["storage","wire","descriptive","json","value","serde"] }
musli-zerocopy = { path = "$repo/crates/musli-zerocopy" }
serde = { version = "*", features = ["derive"] }
T
cd "$t" && CARGO_TARGET_DIR="$t/target" timeout 250 cargo run --offline -q
