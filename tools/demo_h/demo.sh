#!/bin/bash
# Run with cwd /repo. Builds main.rs against ./hotmeal* in a scratch directory,
# with the stand-ins of stubs.tar.gz for the dependencies that cannot be fetched.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-stable}
unset CARGO_TARGET_DIR RUSTFLAGS
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" "$d/.cargo" && cp "$here"/*.rs "$d/src/" && cp "$here/demo.lock" "$d/Cargo.lock" && tar -xzf "$here/stubs.tar.gz" -C "$d" || exit 3
for s in "facet-rs/facet" "fasterthanlime/html5ever" "bearcove/roam"; do
  b=main; [ "$s" = fasterthanlime/html5ever ] && b=hotmeal
  printf '[source."git+https://github.com/%s?branch=%s"]\ngit = "https://github.com/%s"\nbranch = "%s"\nreplace-with = "standins"\n' "$s" $b "$s" $b
done > "$d/.cargo/config.toml"
printf '[source.standins]\ndirectory = "%s/vend"\n[build]\nrustflags = ["--cfg", "hotmeal_mc"]\n' "$d" >> "$d/.cargo/config.toml"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
hotmeal = { path = "$repo/hotmeal" }
hotmeal-server = { path = "$repo/hotmeal-server", features = ["roam"] }
hotmeal-wasm = { path = "$repo/hotmeal-wasm" }
facet-postcard = { git = "https://github.com/facet-rs/facet", branch = "main" }
web-sys = "0.3"
roam = { git = "https://github.com/bearcove/roam", branch = "main" }
wasm-bindgen-futures = "0.4"
[patch.crates-io]
compact_str = { path = "patch/compact_str" }
wasm-bindgen = { path = "patch/wasm-bindgen" }
wasm-bindgen-futures = { path = "patch/wasm-bindgen-futures" }
wasm-tracing = { path = "patch/wasm-tracing" }
js-sys = { path = "patch/js-sys" }
web-sys = { path = "patch/web-sys" }
[profile.dev]
debug = 0
T
cd "$d" && cargo build --offline >build.log 2>&1 || { tail -20 build.log; exit 4; }
timeout 120 ./target/debug/demo
