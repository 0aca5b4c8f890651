#!/bin/bash
# usage: run_check.sh <property id> [--replay FILE]
# Runs one check against /repo's working tree in an isolated scratch state that is removed afterwards.
cd "$(dirname "$0")" || exit 2
VERIF_DIR=$(pwd)
export VERIF_DIR REPO_DIR="${REPO_DIR:-/repo}"
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg QT_QPA_PLATFORM=offscreen LC_ALL=C.UTF-8
export NUMBA_NUM_THREADS=$(getconf _NPROCESSORS_ONLN) OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
unset CDDM_TARGET_PARALLEL CDDM_NUMBA_CACHE CDDM_FASTMATH CDDM_DOUBLE_PRECISION NUMBA_DISABLE_JIT
SCRATCH=$(mktemp -d "${TMPDIR:-/tmp}/verif-mc.XXXXXXXX") || exit 2
trap 'rm -rf "$SCRATCH"' EXIT
mkdir -p "$SCRATCH/home" "$SCRATCH/numba" "$SCRATCH/pyc" "$SCRATCH/mpl" "$SCRATCH/work"
export HOME="$SCRATCH/home" NUMBA_CACHE_DIR="${VERIF_NUMBA_CACHE:-$SCRATCH/numba}" PYTHONPYCACHEPREFIX="$SCRATCH/pyc"
export MPLCONFIGDIR="$SCRATCH/mpl" VERIF_SCRATCH="$SCRATCH/work"
export PYTHONPATH="$REPO_DIR:$VERIF_DIR"
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
"$PY" -m mc.driver "$@"
rc=$?
exit $rc
