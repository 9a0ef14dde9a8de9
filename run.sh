#!/bin/bash
# run.sh PROPERTY [check | replay FILE | one SCENARIO SEED]
# Builds the property's simulation from /repo's current tree and runs it.
# Exit 0: held on everything explored; 1: violation (VIOLATION line); 2: could not decide.
here=$(cd "$(dirname "$0")" && pwd)
prop=$1; shift
bin=$(echo "$prop" | tr 'A-Z' 'a-z')
log=$(mktemp)
if ! bash "$here/build.sh" "$bin" >"$log" 2>&1; then
	tail -60 "$log" >&2
	rm -f "$log"
	echo "BUILD-FAILED property=$prop" >&2
	exit 2
fi
rm -f "$log"
export VERIF_DIR="$here"
[ $# -eq 0 ] && set -- check
exec "${VSIM_TARGET:-$here/target}/x86_64-unknown-linux-gnu/debug/$bin" "$@"
