#!/bin/bash
# builds main.c against libkoopa of the current directory and runs it in a scratch directory
R=$PWD
H=$(cd "$(dirname "$0")" && pwd)
D=$(mktemp -d) || exit 2
trap 'rm -rf "$D"' EXIT
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTC_WRAPPER=
cargo build -p libkoopa --offline --target-dir "$D/target" > "$D/log" 2>&1 || { tail -20 "$D/log"; exit 2; }
gcc -g -I "$R/libkoopa/include" "$H/main.c" -o "$D/demo" "$D/target/debug/libkoopa.a" -lpthread -ldl -lm > "$D/log" 2>&1 || { tail -20 "$D/log"; exit 2; }
cd "$D" || exit 2
timeout 60 "$D/demo"
