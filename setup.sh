#!/bin/bash
# setup.sh   builds everything once so that later builds are quick (the checks also work without it)
. "$(dirname "$0")/env.sh"
set -e
cd "$VERIF_ROOT/harness"
d=$(mktemp -d /tmp/verif-setup.XXXXXX)
trap 'rm -rf "$d"' EXIT
go build -buildvcs=false -o "$d/v" .
go build -buildvcs=false -race -o "$d/vr" .
GOOS=linux GOARCH=386 go build -buildvcs=false -o "$d/v386" .
GOOS=js GOARCH=wasm go build -buildvcs=false -o "$d/vjs" .
mkdir -p "$VERIF_ROOT/evidence" "$VERIF_ROOT/replay"
echo ready
