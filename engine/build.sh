#!/bin/bash
set -e
cd "$(dirname "$0")"
RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true exec cargo build --release --offline --quiet
