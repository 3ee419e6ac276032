#!/bin/bash
# The native replay program, from /repo's current tree
set -e
cd "$(dirname "$0")/replay"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTFLAGS="--cfg obsidian_verif --cap-lints allow" CARGO_TARGET_DIR="$PWD/target"
cargo clean --release --offline -p obsidian 2>/dev/null || true
cargo build --release --offline --quiet
