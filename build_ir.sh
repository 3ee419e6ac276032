#!/bin/bash
# Compiles /repo's current tree with the harnesses and leaves the IR the engine
# executes in $1 (ll file). Needs only the installed toolchain.
set -e
OUT=$1
cd "$(dirname "$0")/harness"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTFLAGS="--cfg obsidian_verif --cap-lints allow" CARGO_TARGET_DIR="$PWD/target" RUSTC_WRAPPER="$PWD/../rustc_wrapper.sh"
LIB=$(rustc --print sysroot)/lib/rustlib/x86_64-unknown-linux-gnu
BIN=$LIB/bin
T=x86_64-unknown-linux-gnu
D=target/$T/release/deps
cargo clean --release --offline --target $T -p obsidian 2>/dev/null || true
rm -f $D/libobsidian-*.rlib $D/libobsidian_harness-*.rlib
cargo build --release --offline --quiet --target $T
W=$(mktemp -d "$PWD/target/link.XXXXXX")
trap 'rm -rf "$W"' EXIT

# bitcode of the objects of an archive, into $2
objects() {
  local d
  d=$(mktemp -d "$2/x.XXXXXX")
  (cd "$d" && "$BIN/llvm-ar" x "$1")
  chmod -R u+rw "$d"
  for o in "$d"/*.o; do
    [ -e "$o" ] || continue
    if [ "$(head -c 2 "$o")" = BC ]; then mv "$o" "$o.bc"; else "$BIN/llvm-objcopy" --dump-section .llvmbc="$o.bc" "$o" /dev/null 2>/dev/null || true; fi
    rm -f "$o"
  done
}

# the dependencies change with the lock file and the toolchain only
DEPS=$(ls $D/*.rlib | grep -vE '/libobsidian(_harness)?-')
KEY=$( (rustc -vV; echo $DEPS; cat Cargo.lock) | sha256sum | cut -c1-16)
if [ ! -e "target/deps.$KEY.bc" ]; then
  mkdir "$W/d"
  for r in $DEPS $(ls "$LIB"/lib/*.rlib | grep -vE "/lib(panic_unwind|test|proc_macro|getopts|sysroot)-"); do objects "$(realpath "$r")" "$W/d"; done
  find "$W/d" -name '*.bc' -size +0 >"$W/list"
  "$BIN/llvm-link" @"$W/list" -o "$W/deps.bc"
  mv "$W/deps.bc" "target/deps.$KEY.bc"
fi
mkdir "$W/o" "$W/h"
objects "$PWD/$(ls $D/libobsidian-*.rlib)" "$W/o"
objects "$PWD/$(ls $D/libobsidian_harness-*.rlib)" "$W/h"
"$BIN/llvm-link" $(find "$W/h" -name '*.bc') $(find "$W/o" -name '*.bc') --only-needed "target/deps.$KEY.bc" -o "$W/all.bc"
API=$(grep -rhoE 'harness_[a-z0-9_]+' src/lib.rs | sort -u | paste -sd,)
# hashing with RandomState stays a call of its own: the engine answers it
"$BIN/opt" -S --strip-debug -passes='internalize,globaldce' -internalize-public-api-list="$API" "$W/all.bc" -o "$W/1.ll"
sed -i -E '/^define .*RandomState.*hash_one/s/ (#[0-9]+ )/ noinline \1/' "$W/1.ll"
F='sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg,sroa,instcombine<no-verify-fixpoint>,simplifycfg,adce'
"$BIN/opt" -S -passes="always-inline,cgscc(inline,function($F)),globaldce" "$W/1.ll" -o "$OUT"
