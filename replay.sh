#!/bin/bash
# replay.sh FILE: rebuilds the simulator around /repo and re-executes a replay file.
set -u
F=$(realpath "${1:?replay file}"); shift
cd "$(dirname "$0")" || exit 2
ROOT=$PWD
REPO=${VERIF_REPO:-/repo}
. "$ROOT/env.sh"
W=$(mktemp -d "$ROOT/.work/replay.XXXXXX") || exit 2
trap 'rm -rf "$W"' EXIT
cd "$ROOT/sim" && cp go.mod go.sum "$W/" &&
go build -modfile="$W/go.mod" -mod=mod -o "$W/tool" ./tool &&
"$W/tool" -repo "$REPO" -out "$W" &&
go build -overlay "$W/overlay.json" -modfile="$W/go.mod" -mod=mod -ldflags=-checklinkname=0 -o "$W/sim" ./cmd/sim || exit 2
"$W/sim" replay "$@" "$F"
