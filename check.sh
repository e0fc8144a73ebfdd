#!/bin/bash
# check.sh ID [quick|thorough]: decides one property; see DESIGN.md.
cd "$(dirname "$0")" || exit 2
exec bash ./sim/drive.sh check "$1" "${2:-${VERIF_TIER:-quick}}"
