#!/bin/bash
# Exit 0 when the behaviour holds, nonzero when it is broken.  Run with cwd = the repository.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
d="$(mktemp -d)" || exit 2
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
cesride = { path = "$repo" }
[profile.dev]
opt-level = 1
debug = false
[workspace]
T
cd "$d" || exit 2
export CARGO_TARGET_DIR="$d/target"
cargo build --offline -q 2> "$d/build.log" || { tail -20 "$d/build.log"; exit 3; }
timeout 120 "$d/target/debug/demo"
