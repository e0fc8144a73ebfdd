#!/bin/bash
# replay.sh FILE: executes the run a check reported, exactly, on /repo's current tree.
f=$(readlink -f "$1") || exit 2
cd "$(dirname "$0")" || exit 2
exec bash ./sim/drive.sh replay "$f"
