#!/bin/bash
# replay.sh <file>: rebuilds and replays a recorded violation; exit 1 when it happens again.
dir="$(cd "$(dirname "$0")" && pwd)"
"$dir/build.sh" || exit 3
exec env VERIF_DIR="$dir" "${MAMSIM_TARGET:-$dir/sim/target}/release/mamsim" replay "$1"
