#!/bin/bash
# check.sh PROPERTY [quick|thorough]   Rebuilds the contracts the property is about from $REPO's
# working tree, then searches seeded simulated runs for a violation of it.
. "$(dirname "${BASH_SOURCE[0]}")/env.sh"
cd $V || exit 2
P=$1 T=${2:-${VERIF_TIER:-quick}}
bin/build_sim.sh || exit 2
S=$B/simtarget/release/simnear
bin/build_wasm.sh $($S wasm $P) || exit 2
export SIM_WASM=$B/wasm
exec $S check $P --seed "${VERIF_SEED:-1}" --tier "$T" --evidence evidence/$P.json \
    --replays $V/replays --known known_findings.txt ${SIM_RUNS:+--runs $SIM_RUNS}
