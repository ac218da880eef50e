#!/bin/bash
# builds main.rs against the crate in the current directory and runs it
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
T=$(mktemp -d /tmp/hodor-demo-XXXXXX) || exit 3
mkdir -p "$T/src"; cp "$D/main.rs" "$T/src/main.rs"; cp "$D/Cargo.lock" "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<EOT
[package]
name = "harness"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
hodor = { path = "$R" }
ff = {package = "ff_ce", version = "0.7", features = ["derive"]}
rand = "0.4"
byteorder = "1"
hex = "0.3.2"
[profile.release]
opt-level = 1
overflow-checks = true
EOT
cd "$T" && RUSTFLAGS="--cfg hodor_verif -Awarnings" CARGO_TARGET_DIR="$T/target" cargo build --offline -q --release 2>"$T/err" || { cat "$T/err"; rm -rf "$T"; exit 2; }
timeout 200 "$T/target/release/harness"; rc=$?
cd /; rm -rf "$T"
exit $rc
