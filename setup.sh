#!/bin/bash
# Builds the explorer once (every check rebuilds it from /repo's working tree).
set -u
V="$(cd "$(dirname "$0")" && pwd)"
. "$V/build.sh" || exit 1
"$MC_BIN" list >/dev/null && mkdir -p "$V/evidence" "$V/replays"
