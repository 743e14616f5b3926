#!/bin/bash
# Interprets the program beside this file, with the tree it is run in, under Miri's data race detector.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/src" "$W/cache"
cp "$here/main.rs" "$W/src/main.rs"
cat > "$W/Cargo.toml" <<M
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
stabby-abi = { path = "$repo/stabby-abi" }
[workspace]
M
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$W/Cargo.lock"
export CARGO_TARGET_DIR="$W/target" CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 RUSTFLAGS=-Awarnings
export XDG_CACHE_HOME="$W/cache" MIRIFLAGS="-Zmiri-many-seeds=0..16 -Zmiri-disable-isolation -Zmiri-disable-stacked-borrows"
cd "$W" || exit 1
timeout 280 cargo +nightly miri run --offline -q
