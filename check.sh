#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decides one property on /repo's working tree.
set -u
. "$(dirname "${BASH_SOURCE[0]}")/env.sh"
vsim_build
"$vsim" check -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}" -root "$here" -repo /repo
