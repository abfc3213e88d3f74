#!/bin/bash
# builds main.rs against the crates of the current directory and runs it
R=$PWD
H=$(cd "$(dirname "$0")" && pwd)
D=$(mktemp -d) || exit 2
trap 'rm -rf "$D"' EXIT
mkdir "$D/src"
cp "$H/main.rs" "$D/src/main.rs"
cp "$R/Cargo.lock" "$D/Cargo.lock"
cat > "$D/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
koopa = { path = "$R/koopa" }
T
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTC_WRAPPER=
cd "$D" || exit 2
cargo build --offline --target-dir "$D/target" > "$D/log" 2>&1 || { tail -20 "$D/log"; exit 2; }
timeout 60 "$D/target/debug/demo"
