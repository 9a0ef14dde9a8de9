#!/bin/bash
# Exits 0 if the demonstrated behaviour is right, 1 if it is wrong.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
. /opt/vp/env.sh
export CARGO_INCREMENTAL=0
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
sed "s#@REPO@#$repo#" "$here/Cargo.toml.in" > "$d/Cargo.toml"
cp "$here/Cargo.lock" "$d/Cargo.lock"
cp -r "$here/src" "$d/src"
cd "$d" && CARGO_TARGET_DIR=$d/target cargo build --offline -q 2> "$d/log" || { tail -30 "$d/log"; exit 3; }
timeout 120 "$d/target/debug/demo"
