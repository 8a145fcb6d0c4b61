#!/bin/bash
# Builds a small program against the crate in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src"
cp "$here/main.rs" "$here/t.rs" "$work/src/"
cat > "$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
dmidecode = { path = "$repo" }
[workspace]
T
cd "$work" && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$work/target" cargo run -q --offline
