#!/bin/bash
# Builds the executable-contract crates against /repo (every check rebuilds what it needs by itself; this only warms the build directory).
cd "$(dirname "$0")" && . ./env.sh && mkdir -p .build/verus evidence
verus --version >/dev/null || exit 1
for c in harness/h_*; do ( cd "$c" && cargo build --offline --release --quiet ) || exit 1; done
