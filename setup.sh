#!/bin/bash
# Nothing has to be prepared: every check builds its own binary from /repo's current tree.
# This only shows that the toolchain and the cached crates the build needs are there.
set -e
. /opt/vp/env.sh
cd "$(dirname "$0")/sim/harness"
cargo metadata --offline --format-version 1 >/dev/null
echo ok
