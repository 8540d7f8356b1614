#!/bin/bash
# Builds the symbolic-execution engine; everything that depends on /repo is built by each check.
set -e
cd "$(dirname "$0")"
export PATH=/root/.cargo/bin:$PATH
unset RUSTFLAGS
mkdir -p .build
cd symx
CARGO_TARGET_DIR=../.build/symx cargo build --release --offline
