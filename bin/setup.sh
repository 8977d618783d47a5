#!/bin/bash
# Smoke test of the framework: everything the checks build, builds.
cd "$(dirname "$0")/.." || exit 1
export HOME=/root PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true
( cd harness && CARGO_TARGET_DIR=/verif/.build/h cargo build --offline ) || exit 1
( cd harness && CARGO_TARGET_DIR=/verif/.build/h-sig cargo build --offline --features sig ) || exit 1
( cd vx && CARGO_TARGET_DIR=/verif/.build/vx cargo build --offline -q ) || exit 1
exit 0
