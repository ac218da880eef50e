#!/bin/bash
# Builds the extractor and the replay harness (offline).  Every check also builds what it needs itself.
cd "$(dirname "$0")" || exit 1
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
CARGO_TARGET_DIR=$PWD/build/vxtract cargo build --offline -q --manifest-path tools/vxtract/Cargo.toml || exit 1
CARGO_TARGET_DIR=$PWD/build/harness RUSTFLAGS="--cfg hodor_verif -Awarnings" cargo build --offline -q --release --manifest-path harness/Cargo.toml
exit 0
