#!/bin/bash
# usage: check.sh <PROPERTY-ID> <quick|thorough> [--replay FILE]
# Runs one model-checking harness against the working tree in /repo.
cd "$(dirname "$0")" || exit 3
export VERIF_REPO="${VERIF_REPO:-/repo}"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=agg
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
SCRATCH=$(mktemp -d "${TMPDIR:-/tmp}/verifmc.XXXXXX") || exit 3
trap 'rm -rf "$SCRATCH"' EXIT
export TMPDIR="$SCRATCH" MPLCONFIGDIR="$SCRATCH/mpl" IPYTHONDIR="$SCRATCH/ipython"
COMPAT=/opt/vp/compat
[ -d "$COMPAT" ] || COMPAT="$PWD/mc/compat"
export PYTHONPATH="$PWD:$COMPAT:$VERIF_REPO"
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
"$PY" -W ignore -m mc.run "$@"
