#!/bin/bash
# nothing is built ahead of time: every check compiles what it needs from the current tree.
set -e
cd "$(dirname "$0")/.."
test -x /opt/venv/bin/python; java -version 2>/dev/null; gcc --version >/dev/null; g++ --version >/dev/null
mkdir -p evidence replays
echo ready
