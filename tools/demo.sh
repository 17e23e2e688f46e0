#!/bin/bash
# Builds main.rs against the crate in the current directory and runs it:
# exit 0 if the property holds in what it tries.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d) || exit 3
trap 'rm -rf "$work"' EXIT
mkdir "$work/src"
cp "$here/main.rs" "$work/src/main.rs"
cat >"$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
pdf-writer = { path = "$repo" }
T
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$work/Cargo.lock"
cd "$work" || exit 3
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$work/target"
if ! cargo build --offline >"$work/log" 2>&1; then
    cat "$work/log"
    exit 3
fi
"$work/target/debug/demo"
