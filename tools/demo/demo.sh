#!/bin/bash
# Runs main.rs (beside this file) against the token-bonding-curve crate in the current
# directory. Exit 0: the property held; nonzero: it is broken.
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=1.70.0 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0
T=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$T"' EXIT
mkdir "$T/src"
cp "$HERE"/*.rs "$T/src/"
cp "$REPO/Cargo.lock" "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
token-bonding-curve = { path = "$REPO/programs/token-bonding-curve" }
solana-program = "1.9.5"
spl-token = { version = "3.3.0", features = ["no-entrypoint"] }
spl-math = { version = "0.1.0", features = ["no-entrypoint"] }
X
cd "$T" || exit 3
CARGO_TARGET_DIR="$T/target" cargo build --offline > build.log 2>&1 || { cat build.log; echo "demo does not build"; exit 3; }
VERIF_PANICS=1 "$T/target/debug/demo"
