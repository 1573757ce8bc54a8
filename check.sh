#!/bin/bash
# check.sh ID: builds the explorer against /repo's working tree and runs one check.
# Tier from VERIF_TIER (quick by default).
set -u
V="$(cd "$(dirname "$0")" && pwd)"
export MC_VERIF="$V"
ID="$1"
. "$V/build.sh" || { echo "build failed"; exit 2; }
"$MC_BIN" check "$ID"
