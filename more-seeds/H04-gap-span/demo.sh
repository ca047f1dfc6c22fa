#!/bin/bash
# builds demo.rs against the crates of the current directory and runs it
R="$PWD"
D="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh >/dev/null 2>&1
W="$(mktemp -d)"
trap 'rm -rf "$W"' EXIT
mkdir "$W/src"
cp "$D/demo.rs" "$W/src/main.rs"
cp "$R/Cargo.lock" "$W/"
cat > "$W/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
vimwiki-core = { path = "$R/vimwiki-core", features = ["html"] }
T
cd "$W" || exit 3
export CARGO_TARGET_DIR="$W/target" RUSTFLAGS=-Awarnings CARGO_INCREMENTAL=0
cargo build -q --offline 2>"$W/log" || { cat "$W/log"; exit 3; }
timeout 100 "$W/target/debug/demo"
