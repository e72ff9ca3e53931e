#!/bin/bash
# run with cwd = the repository; builds a small program against it in a scratch folder
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src" && cp "$D/main.rs" "$T/src/main.rs" && cp "$D/Cargo.lock" "$T/Cargo.lock" || exit 2
sed "s#@REPO@#$PWD#g" "$D/Cargo.toml.in" > "$T/Cargo.toml" || exit 2
export REPO="$PWD"
cd "$T" && CARGO_TARGET_DIR="$T/target" cargo build --offline -q 2>"$T/err" || { cat "$T/err"; exit 3; }
SCRATCH="$T/scratch"; mkdir -p "$SCRATCH"; export SCRATCH
timeout 120 "$T/target/debug/demo"
