#!/bin/bash
# Builds the small program beside this file against /repo (using what is
# already built there) and runs it in a scratch folder.
HERE=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
S=$(mktemp -d) || exit 2
trap 'find "$S" -depth -delete' EXIT
mkdir -p "$S/src" "$S/run"
cp "$HERE/main.rs" "$S/src/main.rs"; cp "$HERE/Cargo.toml.txt" "$S/Cargo.toml"; cp "$HERE/Cargo.lock.txt" "$S/Cargo.lock"
cd "$S" || exit 2
cargo build --offline -q 2>"$S/log" || { tail -30 "$S/log"; exit 2; }
cp "$CARGO_TARGET_DIR/debug/demo" "$S/demo"
cd "$S/run" && timeout 150 "$S/demo"
