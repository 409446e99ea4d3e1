#!/bin/bash
# Confirms the toolchain the checks use is present and warms the build caches.
cd "$(dirname "$0")/harness" || exit 1
cargo --version && cargo +nightly --version || exit 1
CARGO_TARGET_DIR=../target/rel cargo build --offline --release
