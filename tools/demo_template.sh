#!/bin/bash
# Builds and runs the program beside this file against the tree it is run in.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/src"
cp "$here/main.rs" "$W/src/main.rs"
cat > "$W/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
stabby = { path = "$repo/stabby" }
stabby-abi = { path = "$repo/stabby-abi" }
[workspace]
T
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$W/Cargo.lock"
export CARGO_TARGET_DIR="$W/target" CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 RUSTFLAGS=-Awarnings
cd "$W"
timeout 280 cargo run --offline -q
