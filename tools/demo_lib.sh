#!/bin/bash
# builds demo.rs against the library in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock" 2>/dev/null || cp /opt/vp/Cargo.lock "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
vimwiki = { path = "$repo/vimwiki", features = ["html"] }
serde_json = "1"
[profile.dev]
debug = 0
T
cd "$d" || exit 2
env -u CARGO_TARGET_DIR CARGO_TARGET_DIR="$d/target" RUSTFLAGS=-Awarnings timeout 200 cargo run --offline -q
