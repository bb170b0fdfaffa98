#!/bin/bash
# check.sh PROPERTY quick|thorough    search for violations of a property
# check.sh replay FILE                run a recorded violation again
# Exit 0: held on everything explored; 1: VIOLATION; 3: no answer.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$here
bash "$here/build.sh" || { echo "the simulator cannot be built from the current tree" >&2; exit 3; }
if [ "${1:-}" = replay ]; then
  exec "${VERIF_CACHE:-$here/.cache}/sim" replay "$2"
fi
exec "${VERIF_CACHE:-$here/.cache}/sim" check "$1" "${2:-${VERIF_TIER:-quick}}"
