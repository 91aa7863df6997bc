#!/bin/bash
# Builds the simulator and every contract once, so that checks only rebuild what changed.
. "$(dirname "${BASH_SOURCE[0]}")/env.sh"
cd $V || exit 2
bin/build_sim.sh & p=$!
bin/build_wasm.sh staking-pool staking-pool-factory whitelist lockup lockup-factory voting multisig multisig2 \
    multisig-factory w-near state-manipulation; rc=$?
wait $p && exit $rc
exit 2
