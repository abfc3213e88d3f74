#!/bin/bash
# seed.sh ID: takes the edits in ${SEED_REPO:-/tmp/seed/repo} (a copy of /repo), confirms that they
# build, pass the tests, and that seeded/ID/demo.sh tells them apart; writes patch.diff
set -u
ID=$1; S=/verif/seeded/$ID
cd ${SEED_REPO:-/tmp/seed/repo} || exit 1
git diff > $S/patch.diff
[ -s $S/patch.diff ] || { echo "no change"; exit 1; }
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
cargo build --workspace --offline -q 2>/tmp/seed/log || { tail -20 /tmp/seed/log; exit 1; }
cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > /tmp/seed/log 2>&1 
grep -E "^test result|FAILED|failed" /tmp/seed/log | sort | uniq -c | head
(timeout 300 bash $S/demo.sh > /tmp/seed/demo.log 2>&1; echo "patched: $?"; tail -3 /tmp/seed/demo.log)
cd /repo && (timeout 300 bash $S/demo.sh > /tmp/seed/demo0.log 2>&1; echo "clean: $?"; tail -2 /tmp/seed/demo0.log)
cd ${SEED_REPO:-/tmp/seed/repo} && git checkout -q -- .
