#!/bin/bash
# Builds demo.rs (next to this script) against the knaster crates of the current directory and runs it.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
export PATH="$HOME/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true
T=$(mktemp -d /tmp/demo-XXXXXX) || exit 3
trap 'rm -rf "$T"' EXIT
mkdir "$T/src" && cp "$D/demo.rs" "$T/src/main.rs" && cp "$D/demo.lock" "$T/Cargo.lock" || exit 3
cat > "$T/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
knaster_graph = { path = "$R/knaster_graph", default-features = false, features = ["std"] }
knaster_core = { path = "$R/knaster_core", default-features = false, features = ["std"] }
knaster_core_dsp = { path = "$R/knaster_core_dsp", default-features = false, features = ["std"] }
knaster_primitives = { path = "$R/knaster_primitives", default-features = false, features = ["std"] }
knaster_macros = { path = "$R/knaster_macros" }
T
cd "$T" || exit 3
CARGO_TARGET_DIR="$T/target" RUSTFLAGS="-Awarnings" cargo build --offline -q 2> "$T/build.log" || { tail -30 "$T/build.log"; exit 3; }
ulimit -c 0
timeout 60 "$T/target/debug/demo"
