#!/bin/bash
# replay.sh <file>: rebuild from /repo and execute a recorded violation again (exit 1: reproduced, 0: gone)
. "$(dirname "${BASH_SOURCE[0]}")/env.sh"
f="$(realpath "$1")"; cd "$HERE" || exit 3
sim_build fresh || exit 3
exec "$HERE/sim/target/$(sed -n 's/^profile //p' "$f")/raspsim" replay "$f"
