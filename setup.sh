#!/bin/sh
# Everything is built by the checks themselves from /repo's working tree; this only makes sure that they can.
cd "$(dirname "$0")" || exit 2
for t in python3 clang++ yasm ar; do command -v $t >/dev/null || { echo "missing $t"; exit 2; }; done
mkdir -p .cache evidence replays
