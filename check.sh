#!/bin/bash
# check.sh <property> <quick|thorough>: builds the engine if needed and runs the
# property's harnesses against /repo's current working tree.
cd "$(dirname "$0")" || exit 1
D=$PWD
bash "$D/setup.sh" >/dev/null || { echo "cannot build the engine"; exit 2; }
exec "$D/bin/symgo" -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}" -verif "$D"
