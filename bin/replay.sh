#!/bin/bash
# replay.sh FILE   Replays a violation file against contracts rebuilt from $REPO's working tree.
. "$(dirname "${BASH_SOURCE[0]}")/env.sh"
F=$(realpath "$1"); cd $V || exit 2
bin/build_sim.sh || exit 2
S=$B/simtarget/release/simnear
bin/build_wasm.sh $($S wasm $(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "$F")) || exit 2
SIM_WASM=$B/wasm exec $S replay "$F" --known known_findings.txt
