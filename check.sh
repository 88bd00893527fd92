#!/bin/bash
# check.sh ID [quick|thorough]: build the simulator against /repo's working tree, then search.
# Exit 0: held.  Exit 1 + VIOLATION line: broken.  Anything else: no answer.
set -u
here=$(cd "$(dirname "$0")" && pwd)
id=${1:?property id}
tier=${2:-${VERIF_TIER:-quick}}
export PED_ROOT=$here
"$here/build.sh" || { echo "build failed" >&2; exit 2; }
exec "$here/sim/target/release/pedsim" check "$id" "$tier"
