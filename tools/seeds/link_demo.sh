#!/bin/bash
# A program importing `f` with a canary must link to a library that has it, and not to one that hasn't.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/src" "$W/with" "$W/without" "$W/x/src"
cp "$here/main.rs" "$W/src/main.rs"
cat > "$W/src/lib.rs" <<T
#[stabby::export(canaries)]
pub extern "C" fn f(a: u32) -> u32 { a + 1 }
T
cat > "$W/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[lib]
crate-type = ["cdylib"]
[dependencies]
stabby = { path = "$repo/stabby" }
[workspace]
T
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$W/Cargo.lock"
export CARGO_TARGET_DIR="$W/target" CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
cd "$W"
RUSTFLAGS="-Awarnings" timeout 250 cargo build --offline -q --lib
syms=$(nm -D --defined-only "$W/target/debug/libdemo.so" | sed -n "s/.* \(f_canary[a-z0-9_]*\)$/\1/p")
gen() { echo "unsigned f(unsigned a) { return a + 1; }"; for s in $syms; do case $s in f_canary_$1*) ;; *) echo "void $s(void) {}";; esac; done; }
gen nothing > "$W/x.c"; gcc -c -o "$W/x.o" "$W/x.c"; ar rcs "$W/with/libf.a" "$W/x.o"
gen target > "$W/x.c"; gcc -c -o "$W/x.o" "$W/x.c"; ar rcs "$W/without/libf.a" "$W/x.o"
RUSTFLAGS="-Awarnings -Clink-arg=-L$W/with" timeout 120 cargo run --offline -q --bin demo
if RUSTFLAGS="-Awarnings -Clink-arg=-L$W/without" timeout 120 cargo run --offline -q --bin demo > "$W/log" 2>&1; then
    echo "linked without the canary"
    exit 1
fi
grep -q "f_canary_target" "$W/log"
