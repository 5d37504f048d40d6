#!/bin/bash
# bash check.sh C01: builds from /repo's working tree and runs the check of one property.
# Exit 0: held on everything explored; 1: VIOLATION line printed; 2: error of the check itself.
V=$(cd "$(dirname "$0")" && pwd)
. "$V/build.sh"
mkdir -p "$V/work"
log=$(mktemp "$V/work/build.XXXXXX")
build_all "$log" $(builds_for "$1") || { echo "the simulator does not build" >&2; exit 2; }
exec "$BIN_0" check "$1" "$V" "$BIN_0" "$BIN_1" "$BIN_2" "$BIN_3"
