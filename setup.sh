#!/bin/bash
# Builds the simulator once, so that the checks only rebuild what changed.
. "$(dirname "${BASH_SOURCE[0]}")/env.sh"
cd "$HERE" && sim_build
