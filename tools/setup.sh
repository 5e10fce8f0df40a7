#!/bin/bash
# builds the extractor and the concrete harness (offline)
set -e
cd "$(dirname "$0")/.."
mkdir -p .build evidence
CARGO_TARGET_DIR=$PWD/.build/vx cargo build --offline --release --manifest-path vx/Cargo.toml
CARGO_TARGET_DIR=$PWD/.build/hc cargo build --offline --release --manifest-path harness/Cargo.toml
