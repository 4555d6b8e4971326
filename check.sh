#!/bin/bash
# check.sh ID [quick|thorough]   build the monitors against /repo's working tree and run one check
# check.sh replay FILE           re-run one recorded case
# check.sh build                 build only
set -u
export VERIF_DIR="$(cd "$(dirname "$0")" && pwd)"
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_TARGET_DIR="$VERIF_DIR/.target"
export VERIF_SEED="${VERIF_SEED:-1}"
cd "$VERIF_DIR/harness" || exit 2
build() {
  cargo build --release --offline --quiet 2>"$VERIF_DIR/.target/build.log" || {
    echo "harness build failed (see below)"; tail -40 "$VERIF_DIR/.target/build.log"; exit 2; }
}
mkdir -p "$VERIF_DIR/.target" "$VERIF_DIR/evidence"
case "${1:-}" in
  build) build; exit 0;;
  replay) case "$2" in *V01-*) exec python3 "$VERIF_DIR/tools/check_keys.py" replay "$2";;
      *V0[2-6]-*) exec python3 "$VERIF_DIR/tools/check_validation.py" replay "$2";; esac
    build; exec "$CARGO_TARGET_DIR/release/vmon" replay "$2";;
  V01) exec python3 "$VERIF_DIR/tools/check_keys.py" "${2:-quick}";;
  V0[2-6]) exec python3 "$VERIF_DIR/tools/check_validation.py" "$1" "${2:-quick}";;
  *) build; exec "$CARGO_TARGET_DIR/release/vmon" check "$1" "${2:-${VERIF_TIER:-quick}}";;
esac
