#!/bin/bash
# Checks that everything the checks need is there, and compiles the libraries
# once (every check rebuilds what depends on /repo).
cd "$(dirname "$0")" || exit 1
SIM_SECONDS=1 VERIF_DIR="$PWD" bash ./sim/drive.sh check C01 quick || exit 1
SIM_SECONDS=1 VERIF_DIR="$PWD" bash ./sim/drive.sh check C16 quick || exit 1
rm -f evidence/C01.json evidence/C16.json
