#!/bin/bash
# The program bad.rs beside this file must not compile against the tree it is run in; good.rs must.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/src/bin"
cp "$here/good.rs" "$here/bad.rs" "$W/src/bin/"
cat > "$W/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
stabby = { path = "$repo/stabby" }
stabby-abi = { path = "$repo/stabby-abi" }
[workspace]
T
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$W/Cargo.lock"
export CARGO_TARGET_DIR="$W/target" CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 RUSTFLAGS=-Awarnings
cd "$W"
timeout 200 cargo check --offline -q --bin good
if timeout 80 cargo check --offline -q --bin bad > "$W/log" 2>&1; then
    echo "bad.rs compiles"
    exit 1
fi
grep -q "^error" "$W/log"
