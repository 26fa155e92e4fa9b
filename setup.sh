#!/bin/bash
# Warms the build cache: the harness, its race build and a -race standard library.
set -u
V=$(cd "$(dirname "$0")" && pwd)
. "$V/env.sh"
W=$(mktemp -d "${TMPDIR:-/tmp}/verif-setup.XXXXXX") || exit 3
trap 'rm -rf "$W"' EXIT
verif_build "${VERIF_REPO:-/repo}" "$W" C01 && verif_build "${VERIF_REPO:-/repo}" "$W" C21 || { echo "build failed"; exit 3; }
mkdir -p "$V/evidence"
echo "setup ok"
