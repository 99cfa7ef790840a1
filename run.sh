#!/bin/bash
# run.sh PROPERTY [args]: runs one check against /repo's working tree.
here="$(cd "$(dirname "$0")" && pwd)"
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
cache="$(mktemp -d)"
trap 'rm -rf "$cache"' EXIT
# compiled modules in a scratch folder: never a stale one, nothing left in /repo
export PYTHONPYCACHEPREFIX="$cache" OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg MPLCONFIGDIR="$cache/mpl" PYTHONNOUSERSITE=1 PYTHONHASHSEED=0
export BP_REPO="${BP_REPO:-/repo}"
export PYTHONPATH="$BP_REPO:$here/harness${PYTHONPATH:+:$PYTHONPATH}"
cd "$here" || exit 2
"$PY" -W ignore harness/check.py "$@"
