#!/bin/bash
# check.sh <property> <tier> | check.sh replay FILE | check.sh selftest IDS...
# Rebuilds what is stale from /repo's working tree, then runs the simulator on it.
set -u
here=$(cd "$(dirname "$0")" && pwd)
"$here/build.sh" > "$here/out.build.$$" 2>&1 || { cat "$here/out.build.$$"; rm -f "$here/out.build.$$"; echo "HARNESS-ERROR: build failed"; exit 2; }
rm -f "$here/out.build.$$"
. /opt/vp/env.sh
export PYTHONPATH=/repo:$here PYTHONHASHSEED=${VSIM_HASHSEED:-0} PYTHONWARNINGS=ignore
export NUMEXPR_MAX_THREADS=1 NUMEXPR_NUM_THREADS=1 OMP_NUM_THREADS=1 HDF5_USE_FILE_LOCKING=FALSE
export LD_PRELOAD=$here/build/simio.so
cd "$here"
case "$1" in
  replay) exec python -W ignore -m sim.driver replay "$2" ;;
  selftest) shift; exec python -W ignore -m sim.driver selftest "$@" ;;
  *) exec python -W ignore -m sim.driver check "$1" "${2:-quick}" ;;
esac
