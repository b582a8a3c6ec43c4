#!/bin/bash
# Nothing persists between runs: every check compiles its own harness. This only confirms that the tools are there.
set -e
cd "$(dirname "$0")/.."
command -v clang++ >/dev/null || command -v clang++-18 >/dev/null
mkdir -p evidence replays
