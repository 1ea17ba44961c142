#!/bin/bash
# check.sh <PROPERTY> [quick|thorough]   run one check (rebuilding from /repo's working tree)
# check.sh replay <file>                 execute the recorded violations again
# check.sh build                         build only
set -u
V="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUSTC_WRAPPER= RUSTFLAGS=-Awarnings
export CARGO_TARGET_DIR="$V/target"
LOG="$(mktemp)"
trap 'rm -f "$LOG"' EXIT
if ! cargo build --release --offline --locked --manifest-path "$V/mc/Cargo.toml" >"$LOG" 2>&1; then
  cat "$LOG" >&2
  echo "ERROR: the harness does not build against /repo" >&2
  exit 3
fi
# C07 explores interleavings inside calls: a build of the crate with scheduling points
case "${1:-}" in
  C07|build|replay)
    if ! RUSTC_WRAPPER="$V/il/rustc-wrap.sh" CARGO_TARGET_DIR="$V/target/il" \
        cargo build --offline --locked --manifest-path "$V/il/Cargo.toml" >"$LOG" 2>&1; then
      cat "$LOG" >&2
      echo "ERROR: the interleaving explorer does not build against /repo" >&2
      exit 3
    fi
    export MC_IL="$V/target/il/debug/il" ;;
esac
MC="$V/target/release/mc"
case "${1:-}" in
  build) exit 0 ;;
  replay) exec "$MC" replay "$2" ;;
esac
exec "$MC" check "$1" --tier "${2:-quick}" --verif "$V"
