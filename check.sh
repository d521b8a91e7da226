#!/bin/bash
# check.sh Cxx: rebuild the simulator from /repo's working tree and run the check of one property.
# VERIF_TIER (quick/thorough) and VERIF_SEED are taken from the environment.
here=$(cd "$(dirname "$0")" && pwd)
bin=$("$here/harness/build.sh") || { echo "check.sh: /repo does not build under the simulator" >&2; exit 2; }
export VERIF_ROOT="$here"
exec "$bin" check --prop "$1" --tier "${VERIF_TIER:-quick}" --seed "${VERIF_SEED:-1}"
