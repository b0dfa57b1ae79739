#!/bin/bash
# Builds the simulator binary for one set of scenarios from /repo's current working tree.
# usage: build.sh OUTDIR scenario.cpp...      (objects are cached in /verif/build by content hash)
set -e
OUT=$1; shift
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=${REPO:-/repo}
exec python3 "$HERE/tools/build.py" --repo "$REPO" --out "$OUT" --sim "$HERE/sim" --cache "${SIM_CACHE:-$HERE/build/cache}" "$@"
