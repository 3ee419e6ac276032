#!/bin/bash
# Builds the engine and the dependencies of the harnesses; run once before the checks
set -e
cd "$(dirname "$0")"
engine/build.sh
mkdir -p target evidence
./build_ir.sh target/setup.ll
rm -f target/setup.ll
./build_replay.sh
