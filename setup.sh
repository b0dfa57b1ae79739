#!/bin/bash
# Nothing to install: each check builds its simulator from /repo's working tree. Verify the tools it needs.
set -e
cd "$(dirname "$0")"
clang++ --version | head -1
python3 --version
test -e /usr/include/eigen3 && test -e /usr/include/boost/version.hpp
mkdir -p build evidence replays
