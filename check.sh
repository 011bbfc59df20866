#!/bin/bash
# check.sh <property> [quick|thorough]   run one check
# check.sh --replay <file>               run a replay file again
# check.sh --build                       build only
# The harness is always rebuilt against /repo's current working tree.
set -u
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
HERE=$(cd "$(dirname "$0")" && pwd)
export VERIF_OUT=${VERIF_OUT:-$HERE} VERIF_KNOWN=${VERIF_KNOWN:-$HERE/known_findings.txt}
T=$HERE/target/harness
LOG=$HERE/target/build.log
mkdir -p "$HERE/target" "$HERE/evidence" "$HERE/replays"
if ! cargo build --release --offline --locked --manifest-path "$HERE/harness/Cargo.toml" --target-dir "$T" >"$LOG" 2>&1; then
  tail -40 "$LOG" >&2
  echo "ERROR the harness does not build against /repo" >&2
  exit 2
fi
if [ "${1:-}" = C34 ] || [ "${1:-}" = --build ] || [ "${1:-}" = --replay ]; then
  # The tool is built as `cargo run` would, with overflow checks.
  if ! cargo build --offline --manifest-path /repo/utility/bin2str/Cargo.toml --target-dir "$HERE/target/bin2str" >"$LOG.bin2str" 2>&1; then
    tail -40 "$LOG.bin2str" >&2
    echo "ERROR bin2str does not build" >&2
    exit 2
  fi
  export VERIF_BIN2STR=$HERE/target/bin2str/debug/bin2str
fi
BIN=$T/release/bae-check
case "${1:-}" in
  --build) exit 0 ;;
  --replay) exec "$BIN" replay "$2" ;;
  "") exec "$BIN" ;;
  *) exec "$BIN" "$1" "${2:-${VERIF_TIER:-quick}}" ;;
esac
