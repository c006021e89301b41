#!/bin/bash
# builds main.rs against the repository in the current directory and runs it: exit 0 iff the documented behaviour holds
set -e
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
d="$(mktemp -d)"
trap 'rm -rf "$d"' EXIT
cp "$here"/*.rs "$here"/Cargo.lock "$d"/
sed "s#@REPO@#$repo#" "$here/Cargo.toml.in" > "$d/Cargo.toml"
export CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true
cd "$d"
cargo build --offline -q
timeout 120 "$d/target/debug/demo"
