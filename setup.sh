#!/bin/bash
# Builds the simulator binaries (the checks build again, incrementally).
V=$(cd "$(dirname "$0")" && pwd)
. "$V/build.sh"
mkdir -p "$V/work"
build_all "$V/work/setup" 0 1 2 3 || exit 1
for b in "$BIN_0" "$BIN_1" "$BIN_2" "$BIN_3"; do "$b" digests C01 1 0 20 >/dev/null || exit 1; done
