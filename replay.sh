#!/bin/bash
# replay.sh FILE: run one saved failing case (the property id is the file name up to the first '-') against /repo's working tree
V=$(cd "$(dirname "$0")" && pwd); f=$1; id=${2:-$(basename "$f" | sed 's/-.*//')}
B=$(python3 "$V/check.py" --build $([ "$id" = C13 ] && echo xml)) || exit 3
T=$(mktemp -d); ASAN_OPTIONS=detect_leaks=0:allocator_may_return_null=1:detect_odr_violation=0 "$B" "$id" --replay "$f" "$T"; rc=$?; rm -rf "$T"; exit $rc
