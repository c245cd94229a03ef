#!/bin/bash
# run.sh setup            build the checker (both builds) from /repo's working tree
# run.sh <id> [tier]      rebuild what the check needs from /repo and run it
# run.sh replay <file>    rebuild and rerun one saved failing case
# Exit: 0 held, 1 VIOLATION printed, 2/3 error of the check.
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
export PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=1.70.0 CARGO_NET_OFFLINE=true CARGO_PROFILE_DEV_DEBUG=0 CARGO_INCREMENTAL=0
export VERIF_DIR="$HERE" VERIF_SEED="${VERIF_SEED:-1}"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET 2>/dev/null
build() { # $1: plain | prod
    local log dir rc
    log="$HERE/target/build-$1.log"; mkdir -p "$HERE/target"
    if [ "$1" = prod ]; then dir="$HERE/target/prod"; set -- --features prod; export SWAP_PROGRAM_OWNER_FEE_ADDRESS=HfoTxFR1Tm6kGmWgYWD6J7YHVy1UwqSULUGVLXkJqaKN
    else dir="$HERE/target"; set --; fi
    CARGO_TARGET_DIR="$dir" cargo build --offline --locked --manifest-path "$HERE/harness/Cargo.toml" "$@" >"$log" 2>&1; rc=$?
    if [ $rc -ne 0 ]; then cat "$log" >&2; echo "ERROR: the checker does not build against /repo" >&2; exit 2; fi
    BIN="$dir/debug/tbc-pbt"
}
client() { # the bundled TypeScript client, with stand-ins for its libraries
    local c="$HERE/harness/client"
    mkdir -p "$HERE/target"
    /opt/veriftools/node/node_modules/.bin/esbuild "$c/driver.mjs" --bundle --platform=node --log-level=error --alias:client=/repo/app/src/index.ts \
        --alias:bn.js="$c/bn.mjs" --alias:buffer-layout="$c/layout.mjs" --alias:@solana/web3.js="$c/web3.mjs" --outfile="$HERE/target/client.cjs" >&2 \
        || { echo "ERROR: the client does not bundle" >&2; exit 2; }
}
case "${1:-}" in
    setup) build plain; build prod; exit 0 ;;
    replay) case "$2" in *P23*) build prod ;; *P31*) build plain; client ;; *) build plain ;; esac; exec "$BIN" replay "$2" ;;
    P23) build prod ;;
    P31) build plain; client ;;
    P*) build plain ;;
    *) echo "usage: run.sh setup | <property> [quick|thorough] | replay <file>" >&2; exit 2 ;;
esac
exec "$BIN" check "$1" "${2:-${VERIF_TIER:-quick}}"
