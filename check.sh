#!/bin/bash
# check.sh PROPERTY [quick|thorough]: builds the simulator around /repo's current
# working tree and searches seeds for a violation of PROPERTY.
# exit 0: none found; 1: VIOLATION line printed; 2: the check itself failed.
set -u
cd "$(dirname "$0")" || exit 2
ROOT=$PWD
PROP=${1:?property}
TIER=${2:-${VERIF_TIER:-quick}}
SEED=${VERIF_SEED:-1}
case "$SEED" in (''|*[!0-9]*) SEED=1;; esac
REPO=${VERIF_REPO:-/repo}
case $TIER in
  thorough) SECS=${VERIF_SECS:-1200} ;;
  *) TIER=quick; SECS=${VERIF_SECS:-50} ;;
esac
. "$ROOT/env.sh"
W=$(mktemp -d "${VERIF_WORK:-$ROOT/.work}/$PROP.XXXXXX") || exit 2
trap 'rm -rf "$W"' EXIT
mkdir -p "$ROOT/evidence" "$ROOT/replays"
T0=$(date +%s)
build() {
  cd "$ROOT/sim" &&
  sed "s|=> /repo$|=> $REPO|" go.mod >"$W/go.mod" && cp go.sum "$W/" &&
  go build -modfile="$W/go.mod" -mod=mod -o "$W/tool" ./tool &&
  "$W/tool" -repo "$REPO" -out "$W" &&
  go build -overlay "$W/overlay.json" -modfile="$W/go.mod" -mod=mod -ldflags=-checklinkname=0 -o "$W/sim" ./cmd/sim
}
if ! (build) >"$W/build.log" 2>&1; then
  echo "cannot build the simulator around $REPO:" >&2
  tail -40 "$W/build.log" >&2
  exit 2
fi
T1=$(date +%s)
export TMPDIR="$W"
"$W/sim" check -prop "$PROP" -tier "$TIER" -secs "$SECS" -seed "$SEED" \
  -evidence "$ROOT/evidence/$PROP.json" -replays "$ROOT/replays" \
  -known "$ROOT/KNOWN_FINDINGS.txt" -sites "$W/sites.json" -build-s $((T1-T0))
rc=$?
case $rc in 0|1) exit $rc;; *) exit 2;; esac
