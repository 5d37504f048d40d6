#!/bin/bash
# bash replay.sh FILE: builds from /repo's working tree and replays a violation. Exit 1 if it is reproduced, 0 if not.
f=$(realpath "$1") || exit 2
V=$(cd "$(dirname "$0")" && pwd)
. "$V/build.sh"
mkdir -p "$V/work"
log=$(mktemp "$V/work/build.XXXXXX")
p=$(sed -n 's/^property //p' "$f" | head -1)
v=$(sed -n 's/^variant //p' "$f" | head -1)
build_all "$log" $(builds_for "$p") || exit 2
[ "$p" = C22 ] && exec "$BIN_0" replay2 "$f" "$BIN_0" "$BIN_3"
case $v in
1) exec "$BIN_1" replay "$f" ;;
2) exec "$BIN_2" replay "$f" ;;
*) exec "$BIN_0" replay "$f" ;;
esac
