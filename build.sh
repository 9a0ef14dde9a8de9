#!/bin/bash
# Builds one harness binary from /repo's current tree: build.sh BIN [cargo args]
set -e
umask 022
. /opt/vp/env.sh
export CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR=${VSIM_TARGET:-/verif/target}
export RUSTFLAGS="$RUSTFLAGS --cfg vsim_hooks -Zsanitizer=thread -Zexternal-clangrt -Cllvm-args=-tsan-instrument-memory-accesses=0 -Cllvm-args=-tsan-instrument-func-entry-exit=0 -Cllvm-args=-tsan-instrument-memintrinsics=0"
cd "$(dirname "$0")/sim/harness"
bin=$1; shift
[ "$bin" = c02 ] && set -- --features wide "$@"
cargo build --offline --target x86_64-unknown-linux-gnu --bin "$bin" "$@"
