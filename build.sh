#!/bin/bash
# Builds the simulator, with the library from /repo's current working tree
# linked in, into $OUT (default: /verif/.build). Prints the binary's path.
set -e
V=$(cd "$(dirname "$0")" && pwd)
OUT=${OUT:-$V/.build}
export GOFLAGS=-mod=mod CGO_ENABLED=0 GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
unset GOGC GOMAXPROCS GODEBUG GOEXPERIMENT
mkdir -p "$OUT"
cd "$V/sim"
go build -o "$OUT/mkoverlay" ./mkoverlay
"$OUT/mkoverlay" "${REPO:-/repo}" "$V/sim/patch" "$OUT/ov"
if ! go build -ldflags='-s -w' -gcflags='-l -dwarf=0' -overlay "$OUT/ov/overlay.json" -o "$OUT/gostsim" . 2>"$OUT/split.log"; then
	# the text does not stand the splitting of statements, or does not compile at all
	"$OUT/mkoverlay" "${REPO:-/repo}" "$V/sim/patch" "$OUT/ov" plain
	go build -ldflags='-s -w' -gcflags='-l -dwarf=0' -overlay "$OUT/ov/overlay.json" -o "$OUT/gostsim" .
fi
