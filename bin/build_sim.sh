#!/bin/bash
# Builds the simulator into build/simtarget.
. "$(dirname "${BASH_SOURCE[0]}")/env.sh"
mkdir -p $B; exec 8>$B/.sim.lock; flock 8
cd $V/sim && cargo build --release --offline --locked --target-dir $B/simtarget 8>&- 2>$B/sim.log || { grep -E "^error" -A9 $B/sim.log | tail -60 >&2; exit 2; }
