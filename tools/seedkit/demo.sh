#!/bin/sh
# cwd: the repository. Builds the demonstration beside this file against it and runs it.
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
W=$(mktemp -d /tmp/yamux-demo.XXXXXX) || exit 2
trap 'rm -r -f "$W"' EXIT
mkdir "$W/src" && cp "$D/support.rs" "$D/demo.rs" "$W/src/" || exit 2
cp "$D/Cargo.lock.txt" "$W/Cargo.lock" || exit 2
printf '#![cfg(test)]\nmod support;\nmod demo;\n' > "$W/src/lib.rs"
cat > "$W/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
yamux = { path = "$R/yamux" }
futures = { version = "0.3", default-features = false, features = ["std", "executor"] }
[workspace]
T
export CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
CARGO_TARGET_DIR=${DEMO_TARGET:-$W/target} timeout 280 cargo test --offline --manifest-path "$W/Cargo.toml" 2>&1 | tail -40 > "$W/log"
cat "$W/log"
grep -q '^test result: ok\. [1-9]' "$W/log"
