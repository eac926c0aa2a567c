#!/bin/bash
# Runs in the repository: builds main.rs against it and plays cases.json.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
w="$(mktemp -d)"
trap 'rm -rf "$w"' EXIT
mkdir "$w/src"
cp "$here/main.rs" "$w/src/main.rs"
cp "$here/Cargo.lock.txt" "$w/Cargo.lock"
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"

[workspace]

[dependencies]
json-ld = { path = "$repo" }
json-ld-core = { path = "$repo/crates/core" }
json-ld-syntax = { path = "$repo/crates/syntax" }
json-ld-expansion = { path = "$repo/crates/expansion" }
json-ld-compaction = { path = "$repo/crates/compaction" }
json-ld-context-processing = { path = "$repo/crates/context-processing" }
json-ld-serialization = { path = "$repo/crates/serialization" }
json-syntax = "0.12"
rdf-types = "0.22"
iref = "3.1.2"
static-iref = "3.0"
indexmap = "2.0"
futures = "0.3"
contextual = "0.1.4"
linked-data = "0.1"

[profile.dev]
debug = 0
T
export CARGO_TARGET_DIR="${DEMO_TARGET:-$w/target}"
cd "$w" || exit 2
cargo build --offline -q 2> "$w/log" || { tail -30 "$w/log"; exit 3; }
timeout 100 "$CARGO_TARGET_DIR/debug/demo" "$here/cases.json" $DEMO_ARGS 2> /dev/null
