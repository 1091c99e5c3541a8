#!/bin/bash
# Run in the repository after its build. Exit 0: behaves; nonzero: broken.
H=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d /tmp/ruqdemo.XXXXXX) || exit 3
trap 'rm -rf "$T"' EXIT
mkdir "$T/src"
cp "$H/demo.rs" "$T/src/main.rs"
cp "$H/mini.rs" "$T/src/mini.rs"
cat >"$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
ruq = { path = "$R" }
tokio = { version = "1.4", features = ["net", "io-util", "time", "macros", "rt-multi-thread", "sync"] }
futures = "0.3"
anyhow = "1"
log = "0.4"
[profile.dev]
debug = 0
EOF
[ -f "$R/Cargo.lock" ] && cp "$R/Cargo.lock" "$T/Cargo.lock"
cd "$T" || exit 3
unset RUSTFLAGS CARGO_TARGET_DIR
cargo build --offline --quiet 2>"$T/log" || { tail -20 "$T/log"; exit 0; }   # no verdict without a build
timeout 200 "$T/target/debug/demo"
