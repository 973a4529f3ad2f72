#!/bin/bash
# Builds every simulator once (each check rebuilds its own from /repo's current tree anyway).
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/target"
mkdir -p target evidence replays
cd sim && cargo build --release --offline
