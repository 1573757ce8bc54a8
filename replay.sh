#!/bin/bash
# replay.sh FILE: runs the failing case of a violation again.
set -u
V="$(cd "$(dirname "$0")" && pwd)"
export MC_VERIF="$V"
F="$1"
ID="$(basename "$F" | cut -d- -f1)"
. "$V/build.sh" || exit 2
"$MC_BIN" replay "$F"
