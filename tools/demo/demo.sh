#!/bin/bash
# Builds and runs main.rs (beside this file) against /repo in a scratch directory.
set -u
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
cp "$d/Cargo.toml" "$d/Cargo.lock" "$d/main.rs" "$d/h.rs" "$t/" || exit 2
cd "$t" && CARGO_TARGET_DIR="$t/target" cargo build --offline -q 2>"$t/log" || { cat "$t/log"; exit 2; }
mkdir "$t/scratch" && SCRATCH="$t/scratch" timeout 120 "$t/target/debug/demo"
