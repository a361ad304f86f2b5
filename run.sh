#!/bin/bash
# run.sh <property-id> [quick|thorough]  -- build the simulator against /repo's working tree, then check
cd "$(dirname "$0")" || exit 2
HERE=$(pwd)
ID=$1
TIER=${2:-${VERIF_TIER:-quick}}
SEED=${VERIF_SEED:-1}
case "$ID" in
  C23|C24|C25) mkdir -p "$HERE/replays"; exec bash "$HERE/pysim/pysim.sh" check "$ID" "$TIER" "$SEED" "$HERE" ;;  # the Python port
esac
export CARGO_TARGET_DIR="$HERE/sim/target" CARGO_NET_OFFLINE=true
unset RUSTFLAGS
if ! LOG=$(cargo build --release --offline --manifest-path "$HERE/sim/Cargo.toml" 2>&1); then
  echo "$LOG" | tail -60 >&2
  echo "the simulator does not build against /repo" >&2
  exit 2
fi
exec "$HERE/sim/target/release/ellsim" check "$ID" "$TIER" "$SEED" "$HERE"
