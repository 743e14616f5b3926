#!/bin/bash
# Builds a library exporting `g` and runs the program beside this file on it.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/src"
cp "$here/main.rs" "$W/src/main.rs"
cat > "$W/src/lib.rs" <<T
#[stabby::export]
pub extern "C" fn g(a: u32) -> u32 { a + 1 }
#[stabby::export(canaries)]
pub extern "C" fn f(a: u32) -> u32 { a + 1 }
T
cat > "$W/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[lib]
crate-type = ["cdylib"]
[dependencies]
stabby = { path = "$repo/stabby", features = ["libloading"] }
libloading = "0.8"
[workspace]
T
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$W/Cargo.lock"
export CARGO_TARGET_DIR="$W/target" CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 RUSTFLAGS=-Awarnings
cd "$W"
timeout 250 cargo build --offline -q
d="$W/libs"; mkdir -p "$d"
syms=$(nm -D --defined-only "$W/target/debug/libdemo.so" | sed -n "s/.* \(f_canary[a-z0-9_]*\)$/\1/p")
gen() { local t; echo "unsigned f(unsigned a) { return a + 1; }"; for t in $syms; do [ "$t" == "$1" ] || echo "void $t(void) {}"; done; }
gen none > "$d/x.c"; gcc -shared -fPIC -o "$d/all.so" "$d/x.c"
for s in $syms; do case $s in *_host_*) ;; *) gen $s > "$d/x.c"; gcc -shared -fPIC -o "$d/no_$s.so" "$d/x.c";; esac; done
"$W/target/debug/demo" "$d"
