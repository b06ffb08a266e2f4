#!/bin/bash
# run.sh ID [quick|thorough] [SUB]   decide one property against /repo's working tree
# run.sh replay FILE                 re-run a saved counterexample
# run.sh build                       only build
# Exit: 0 held, 1 violated (VIOLATION line), 2 error of the check.
VERIF_DIR="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VERIF_DIR
export HOME="${HOME:-/root}"
export PATH="$PATH:/usr/local/bin:/root/.cargo/bin"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR="$VERIF_DIR/target"
export RUSTFLAGS="--cfg pt_verif -Awarnings"
mkdir -p "$VERIF_DIR/work" "$VERIF_DIR/evidence" || exit 2
LOG="$VERIF_DIR/work/build.log"
if ! cargo build --release --offline --locked --manifest-path "$VERIF_DIR/harness/Cargo.toml" >"$LOG" 2>&1; then
    tail -40 "$LOG"
    echo "ERROR: the harness does not build against /repo"
    exit 2
fi
BIN="$VERIF_DIR/target/release/ptcheck"
case "$1" in
    build) exit 0 ;;
    replay) exec "$BIN" replay "$2" ;;
    *) exec "$BIN" run "$@" ;;
esac
