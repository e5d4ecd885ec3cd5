#!/bin/bash
# Compares the html5ever stand-in with the real html5ever 0.26 (see run.py).
set -e
cd "$(dirname "$0")/../.."
(cd mc/hot && cargo build --release --offline 2>/dev/null)
exec python3 tools/realparse/run.py "$@"
