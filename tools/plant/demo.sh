#!/bin/bash
# Runs in the repository's root: compiles the library and demo.cpp in a scratch directory and runs the demonstration.
HERE=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
F="-std=c++17 -O0 -w -DNDEBUG -I$R/src/DRAMPower -I$R/src/cli/lib -I$R/src/cli/main -I$HERE/standin -I$HERE"
set -o pipefail
find "$R/src/DRAMPower" -name '*.cpp' | awk '{print $0" "NR}' | xargs -P8 -L1 sh -c "g++ $F -c \"\$0\" -o $T/\$1.o" || { echo "library does not build"; exit 4; }
g++ $F "$HERE/demo.cpp" "$T"/*.o -o "$T/demo" EXTRA || { echo "demo does not build"; exit 4; }
cd "$T" && ./demo
