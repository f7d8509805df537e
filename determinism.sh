#!/bin/bash
# determinism.sh [LIVES]: runs lives of every property three times and compares everything observed.
set -u
. "$(dirname "${BASH_SOURCE[0]}")/env.sh"
vsim_build
"$vsim" determinism -root "$here" -repo /repo -lives "${1:-6}"
