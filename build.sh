#!/bin/sh
# Builds the simulator from /repo's current working tree.
cd /verif/sim || exit 3
export RUSTC_WRAPPER=/verif/sim/rustc-wrap.sh
export CARGO_TARGET_DIR=/verif/sim/target
export CARGO_NET_OFFLINE=true
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
exec cargo build --release --offline "$@"
