#!/bin/bash
# check.sh ID [--replay FILE] [extra vrun flags]
# Builds the harness against /repo's working tree and runs one check.
set -u
V=$(cd "$(dirname "$0")" && pwd)
ID=${1:?property id}; shift
. "$V/env.sh"
REPO=${VERIF_REPO:-/repo}
W=$(mktemp -d "${TMPDIR:-/tmp}/verif-$ID.XXXXXX") || exit 3
trap 'rm -rf "$W"' EXIT
verif_build "$REPO" "$W" "$ID" || { echo "build failed"; exit 3; }
if [ "${1:-}" = "--replay" ]; then
  mkdir -p "$W/s"
  F=$2
  BIN="$W/vrun"; grep -q '"build": "race"' "$F" && [ -x "$W/vrun-race" ] && BIN="$W/vrun-race"
  "$BIN" -prop "$ID" -replay "$F" -dir "$W/s"
  exit $?
fi
mkdir -p "$V/evidence" "$V/replay"
"$W/vrun" -prop "$ID" -seed "${VERIF_SEED:-1}" -tier "${VERIF_TIER:-quick}" -verif "$V" -dir "$W/s" \
  -bin "$W/vrun" -racebin "$W/vrun-race" "$@"
exit $?
