#!/bin/bash
# Builds the simulator once (checks rebuild it against /repo's working tree anyway).
cd "$(dirname "$0")" || exit 2
export CARGO_TARGET_DIR="$(pwd)/sim/target" CARGO_NET_OFFLINE=true
unset RUSTFLAGS
cargo build --release --offline --manifest-path sim/Cargo.toml
