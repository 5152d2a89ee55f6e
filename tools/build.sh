#!/bin/bash
# Builds the simulator from /repo's working tree into build/ (git-ignored).
set -e
V="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"
B="${VSIM_BUILD:-$V/build}"
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=1.85 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="$B/target" RUSTC_WRAPPER= RUSTC_WORKSPACE_WRAPPER="$V/tools/wrap.sh"
export RUSTFLAGS="--cfg rustix_use_libc -Awarnings"
unset CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
mkdir -p "$B"
python3 "$V/tools/prepare.py"
cd "$B/ws"
exec cargo build --offline -q -p vsim-harness
