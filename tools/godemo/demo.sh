#!/bin/bash
# Run in the repository's root: exit 0 if the property holds in this demonstration. The Go module is built over a
# small stand-in for the library, and for its dependencies, which are not installed.
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/possum-demo.XXXXXX) || exit 9
trap 'chmod -R u+w "$T"; rm -rf -- "$T"' EXIT
export GOCACHE=$T/cache GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=1
mkdir -p "$T/possum" "$T/lib" "$T/demo"
cp -r "$PWD"/go/. "$T/possum/"
find "$T/possum" -name '*_test.go' -delete
printf 'module github.com/anacrolix/possum/go\n\ngo 1.21\n' > "$T/possum/go.mod"
cp -r "$here/deps" "$T/deps"
gcc -I "$PWD/go/cpossum" -c -o "$T/lib/stand_in.o" "$here/stand_in.c" || exit 9
ar rcs "$T/lib/libpossum.a" "$T/lib/stand_in.o"
cp "$here/demo.go" "$T/demo/main.go"
cat > "$T/demo/go.mod" <<M
module demo

go 1.21

require (
	github.com/anacrolix/possum/go v0.0.0
	github.com/anacrolix/chansync v0.0.0
	github.com/anacrolix/generics v0.0.0
	github.com/anacrolix/missinggo/v2 v2.0.0
)

replace (
	github.com/anacrolix/possum/go => $T/possum
	github.com/anacrolix/chansync => $T/deps/chansync
	github.com/anacrolix/generics => $T/deps/generics
	github.com/anacrolix/missinggo/v2 => $T/deps/missinggo
)
M
cd "$T/demo" && CGO_CFLAGS="-I$T/possum/cpossum" CGO_LDFLAGS="-L$T/lib" go build -o "$T/demo/demo" . || exit 9
timeout 100 "$T/demo/demo"
