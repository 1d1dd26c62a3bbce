#!/bin/bash
# run.sh <ID> [--tier quick|thorough] [--replay FILE]
# Rebuilds the Cython extensions of /repo's current tree (incrementally, into
# git-ignored places), then runs checks/<id>.py in a fresh interpreter.
HERE=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
ID=$1; shift
WORK=$(mktemp -d /tmp/vk.XXXXXXXX) || exit 3
trap 'rm -rf "$WORK"' EXIT
mkdir -p /repo/build
exec 9>/repo/build/.vk.lock
flock 9
if ! build_ext > "$WORK/build.log" 2>&1; then
    tail -40 "$WORK/build.log"; echo "ERROR: the extensions do not build"; exit 3
fi
flock -u 9
exec 9>&-
export VK_WORK=$WORK TMPDIR=$WORK PYTHONPATH=$HERE PYTHONDONTWRITEBYTECODE=1
export MPLCONFIGDIR=$WORK/mpl JUPYTER_PLATFORM_DIRS=1 HOME=$WORK
export OMP_NUM_THREADS=${VK_OMP:-2} OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export OMP_WAIT_POLICY=passive
export NUMBA_NUM_THREADS=${VK_NUMBA_THREADS:-1} NUMBA_THREADING_LAYER=workqueue
export NUMBA_CACHE_DIR=$WORK/numba
mkdir -p "$NUMBA_CACHE_DIR"
case "$*" in
*thorough*) ;;   # full optimisation, as users run it
*) export VK_FAST=1 NUMBA_OPT=${VK_OPT:-1} NUMBA_LOOP_VECTORIZE=0 NUMBA_SLP_VECTORIZE=0 ;;
esac
cd "$WORK"
"$PY" "$HERE/checks/$(echo "$ID" | tr 'A-Z' 'a-z').py" "$@"
exit $?
