#!/bin/sh
# Builds the harness once, so that the checks only rebuild what changed in /repo
cd "$(dirname "$0")/../harness" || exit 2
mkdir -p ../.build
CARGO_TARGET_DIR="$(cd ../.build && pwd)/target" CARGO_NET_OFFLINE=true RUSTFLAGS="--cap-lints allow" cargo build --offline --quiet
