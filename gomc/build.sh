#!/bin/bash
# Builds the model checker of the Go binding against /repo's working tree.
set -e
cd "$(dirname "$0")"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
SRC="$PWD"
OUT="$(cd .. && pwd)/target/gomc"
LIB="$(cd .. && pwd)/target/debug/deps"
mkdir -p "$OUT/lib" "$OUT/real"
export GOCACHE="$OUT/cache" GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off GONOSUMDB='*'
export CGO_ENABLED=1
rm -rf "$OUT/possum.new"
(cd prep && go build -o "$OUT/prep" .)
"$OUT/prep" /repo/go "$OUT/possum.new"
printf 'module github.com/anacrolix/possum/go\n\ngo %s\n' "$(awk '$1=="go"{print $2;exit}' /repo/go/go.mod)" >"$OUT/possum.new/go.mod"
rm -rf "$OUT/possum"
mv "$OUT/possum.new" "$OUT/possum"
rm -rf "$OUT/mc"
cp -r "$SRC/mc" "$OUT/mc"
sed -e "s|@OUT@|$OUT|g" -e "s|@SRC@|$SRC|g" mc/go.mod.in >"$OUT/mc/go.mod"
[ -f "$OUT/lib/libpossum.a" ] || ar rcs "$OUT/lib/libpossum.a"
cd "$OUT/mc"
CGO_CFLAGS="-I/repo/go/cpossum" CGO_LDFLAGS="-L$OUT/lib -Wl,--wrap=malloc -Wl,--wrap=free" go build -o "$OUT/stubmc" ./cmd/stubmc
cmp -s "$LIB/libpossum.a" "$OUT/real/libpossum.a" || cp "$LIB/libpossum.a" "$OUT/real/libpossum.a"
CGO_LDFLAGS="-L$OUT/real" go build -o "$OUT/realmc" ./cmd/realmc
