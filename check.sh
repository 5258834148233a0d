#!/bin/bash
# check.sh <property> [quick|thorough]: rebuild from /repo's working tree, then search by simulation.
cd "$(dirname "$0")" || exit 2
ID=$1; TIER=${2:-${VERIF_TIER:-quick}}
if ! bash sim/build.sh >/tmp/simbuild.$$.log 2>&1; then cat /tmp/simbuild.$$.log >&2; rm -f /tmp/simbuild.$$.log; echo "build failed" >&2; exit 2; fi
rm -f /tmp/simbuild.$$.log
export SIM_DIR=$PWD SIM_KNOWN=$PWD/known-findings.txt
exec .build/simbin check "$ID" "$TIER"
