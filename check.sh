#!/bin/bash
# check.sh <property> [quick|thorough]: rebuild from /repo, simulate, judge, write evidence/<property>.json
. "$(dirname "${BASH_SOURCE[0]}")/env.sh"
cd "$HERE" || exit 3
sim_build fresh || exit 3
exec "$HERE/sim/target/chk/raspsim" check "$1" "${2:-${VERIF_TIER:-quick}}"
