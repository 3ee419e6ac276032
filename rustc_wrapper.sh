#!/bin/bash
# The crates whose code is judged are handed to `opt` as the front end emits them, so
# that the hash functions named in build_ir.sh are still calls there.
R=$1
shift
case " $* " in
*" --crate-name obsidian "* | *" --crate-name obsidian_harness "*) exec "$R" "$@" -C no-prepopulate-passes ;;
*) exec "$R" "$@" ;;
esac
