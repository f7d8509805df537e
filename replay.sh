#!/bin/bash
# replay.sh FILE: runs a replay file again on /repo's working tree; exit 1 if it still fails.
set -u
. "$(dirname "${BASH_SOURCE[0]}")/env.sh"
vsim_build
"$vsim" replay -root "$here" -repo /repo "$1"
