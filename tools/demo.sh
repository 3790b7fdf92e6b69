#!/bin/bash
# Run in the repository's root after its build: exit 0 if the property holds in this demonstration.
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/possum-demo.XXXXXX) || exit 9
trap 'rm -rf -- "$T"' EXIT
d=$PWD/target/debug
rustc --edition 2021 -A warnings -L "dependency=$d/deps" --extern "possum=$d/deps/libpossum.rlib" \
    --extern "rusqlite=$(ls -t "$d"/deps/librusqlite-*.rlib | head -1)" \
    --extern "libc=$(ls -t "$d"/deps/liblibc-*.rlib | head -1)" \
    -o "$T/demo" "$here/demo.rs" || exit 9
export POSSUM_BIN=$d/possum
timeout 200 "$T/demo" "$T"
