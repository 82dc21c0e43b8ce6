#!/bin/bash
# Builds the extractor and the harness; every check does the same again if it has to.
cd "$(dirname "$0")/.." || exit 1
(cd vx && env -u RUSTC_WRAPPER -u RUSTUP_TOOLCHAIN CARGO_TARGET_DIR=../target/vx cargo build --offline --release -q) || exit 1
verus --version >/dev/null || exit 1
