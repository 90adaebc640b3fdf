#!/bin/bash
# Builds the whole of DRAMPower (library, command line tool) with the DRAMUtils stand-in and runs the repository's
# own complete test suites. Usage: run.sh [REPO] [BUILDDIR]. This is how the stand-in was validated, and an extra filter
# for planted bugs; no registered check depends on it.
set -e
REPO=${1:-/repo}; B=${2:-/tmp/verif_suite}
HERE=$(cd "$(dirname "$0")" && pwd)
cmake -S "$HERE" -B "$B" -G Ninja -DREPO="$REPO" -DCMAKE_BUILD_TYPE=Debug -DCMAKE_CXX_FLAGS="-w" >/dev/null
ninja -C "$B" >"$B/log" 2>&1 || { tail -30 "$B/log"; exit 1; }
rc=0
"$B/td" >"$B/td.log" 2>&1 || rc=1; "$B/tm" >"$B/tm.log" 2>&1 || rc=1
grep -h 'FAILED\|PASSED' "$B/td.log" "$B/tm.log"
exit $rc
