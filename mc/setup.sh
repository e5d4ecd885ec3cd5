#!/bin/bash
# Builds the checkers once (each check rebuilds what changed in /repo).
here=$(cd "$(dirname "$0")" && pwd)
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-stable}
for c in cin hot; do
  [ -f "$here/$c/Cargo.toml" ] || continue
  (cd "$here/$c" && cargo build --release --offline) || exit 1
done
