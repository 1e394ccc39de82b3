#!/bin/bash
# Builds the simulator from /repo's working tree into /verif/target (git-ignored).
set -e
cd "$(dirname "$0")"
unset CARGO_ENCODED_RUSTFLAGS RUSTFLAGS
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="${D10SIM_TARGET:-/verif/target/sim}" RUSTUP_TOOLCHAIN=stable
RUSTC_WRAPPER="$PWD/rustc-wrapper.sh" cargo build --offline --release "$@"
