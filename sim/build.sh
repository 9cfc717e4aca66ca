#!/bin/bash
# Builds the simulator against /repo's working tree (offline; output under /verif/target).
here="$(cd "$(dirname "$0")" && pwd)"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
export RUSTC_WRAPPER="$here/wrap.sh" RUSTFLAGS="--cap-lints allow"
export CARGO_TARGET_DIR="${SIM_TARGET:-$here/../target}"
cd "$here" && exec cargo build --release --offline --locked "$@"
