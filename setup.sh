#!/bin/bash
# builds driver and workers once, to see that everything is there and to fill the build cache
set -u
. "$(dirname "${BASH_SOURCE[0]}")/env.sh"
vsim_build
(cd "$here/sim" && go test ./ref ./instr ./simrt/...) || exit 1
"$vsim" build -root "$here" -repo /repo
