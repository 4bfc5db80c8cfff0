#!/bin/bash
# replay.sh PROPERTY REPLAY.json: runs the case of a reported violation again and replays its trace
cd "$(dirname "$0")/.." || exit 1
exec python3 tools/check.py "$1" replay "$2"
