#!/bin/bash
# check.sh <property> <quick|thorough>: rebuilds against /repo's working tree and runs the simulation.
# Exit 0: held on everything explored; 1: VIOLATION line printed; anything else: no answer.
dir="$(cd "$(dirname "$0")" && pwd)"
"$dir/build.sh" || exit 3
exec env VERIF_DIR="$dir" "${MAMSIM_TARGET:-$dir/sim/target}/release/mamsim" check "$1" "${2:-${VERIF_TIER:-quick}}"
