#!/bin/bash
# Builds the simulator once, to show that it builds and to fill the build cache.
cd "$(dirname "$0")" || exit 2
ROOT=$PWD
. "$ROOT/env.sh"
W=$(mktemp -d "$ROOT/.work/setup.XXXXXX") || exit 2
trap 'rm -rf "$W"' EXIT
cd "$ROOT/sim" && cp go.mod go.sum "$W/" &&
go build -modfile="$W/go.mod" -mod=mod -o "$W/tool" ./tool &&
"$W/tool" -out "$W" &&
go build -overlay "$W/overlay.json" -modfile="$W/go.mod" -mod=mod -ldflags=-checklinkname=0 -o "$W/sim" ./cmd/sim
