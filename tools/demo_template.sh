#!/bin/bash
# Builds the program beside this script against the PoloDB in the current directory and runs it
# on a scratch directory.  Exit 0: the behaviour is right.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export ROCKSDB_INCLUDE_DIR=/usr/include ROCKSDB_LIB_DIR=/usr/lib/x86_64-linux-gnu
w=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$w"' EXIT
mkdir "$w/src" "$w/data" && cp "$here/main.rs" "$w/src/" && cp "$repo/Cargo.lock" "$w/" || exit 2
cat > "$w/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
polodb_core = { path = "$repo/src/polodb_core" }
bson = "2"
libc = "0.2"
[profile.dev]
debug = 0
X
cd "$w" && cargo build --offline -q --target-dir "$w/target" >"$w/log" 2>&1 || { tail -20 "$w/log"; exit 2; }
pre=
if [ -e "$here/shim.c" ]; then gcc -O1 -shared -fPIC -o "$w/shim.so" "$here/shim.c" -ldl || exit 2; pre=$w/shim.so; fi
LD_PRELOAD=$pre timeout 100 "$w/target/debug/demo" "$w/data"
