#!/bin/bash
# Run with cwd /repo. Builds main.rs against ./cinereus in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-stable}
unset CARGO_TARGET_DIR RUSTFLAGS
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" && cp "$here"/*.rs "$d/src/" && cp "$here/demo.lock" "$d/Cargo.lock" || exit 3
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
cinereus = { path = "$repo/cinereus" }
T
cd "$d" && cargo build --offline >build.log 2>&1 || { tail -20 build.log; exit 4; }
timeout 120 ./target/debug/demo
