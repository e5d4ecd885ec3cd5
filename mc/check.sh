#!/bin/bash
# usage: check.sh <property> quick|thorough | check.sh <property> replay <file>
# Builds the checker of the property against /repo's working tree and runs it.
# Exit 0: held. Exit 1 (+ VIOLATION line): broken. Exit 2: could not build.
here=$(cd "$(dirname "$0")" && pwd)
export CARGO_NET_OFFLINE=true
export RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-stable}
unset CARGO_TARGET_DIR RUSTFLAGS CARGO_BUILD_TARGET
export VERIF_ROOT=${VERIF_ROOT:-$(dirname "$here")}
case "$1" in
  C*) crate=cin ;;
  *) crate=hot ;;
esac
log=$(mktemp)
if ! (cd "$here/$crate" && cargo build --release --offline) >"$log" 2>&1; then
  echo "check $1: the checker does not build against this tree:" >&2
  grep -E -A12 '^error' "$log" >&2 || tail -20 "$log" >&2
  rm -f "$log"
  exit 2
fi
rm -f "$log"
cd "$VERIF_ROOT" || exit 2
"$here/$crate/target/release/mc-$crate" "$@"
