#!/bin/bash
# replay.sh <file>: rebuild and re-execute one recorded run exactly (TRACE=1 also prints every system call).
F=$(readlink -f "$1"); cd "$(dirname "$0")" || exit 2
bash sim/build.sh >/dev/null 2>&1 || exit 2
export SIM_DIR=$PWD SIM_KNOWN=$PWD/known-findings.txt
exec .build/simbin replay "$F"
