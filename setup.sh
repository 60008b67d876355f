#!/bin/bash
# Warms the build cache so that the checks start fast; nothing a check needs depends on it.
cd "$(dirname "$0")" || exit 1
W=$(mktemp -d) || exit 1
export HOME=${HOME:-/root} PATH=/opt/veriftools/go1.25.14/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=1
export GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
(cd tools/instrument && go build -buildvcs=false -o "$W/instr" .) || { rm -rf "$W"; exit 1; }
go build -race fmt os time context encoding/json math/rand math/rand/v2 crypto/rand regexp strings sort sync >/dev/null 2>&1
rm -rf "$W"
python3 -c 'import json; json.load(open("MANIFEST.json"))'
