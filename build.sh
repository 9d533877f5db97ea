#!/bin/bash
# Builds the simulator against /repo's working tree: the repository's own
# sources, instrumented, in one executable with the scenarios and the runtime.
set -e
cd "$(dirname "$0")"
HERE=$(pwd)
REPO=${SIM_REPO:-/repo}
B=${SIM_BUILD:-$HERE/build}
mkdir -p "$B"
python3 "$HERE/genbuild.py" "$REPO" "$HERE" "$B"
exec ninja --quiet -C "$B" "$@"
