#!/bin/bash
# run.sh <property> | --replay FILE : one check, in its own scratch directory
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh 2>/dev/null
S=$(mktemp -d "${TMPDIR:-/tmp}/vpcheck.XXXXXX") || exit 2
trap '/bin/rm -rf "$S"' EXIT
cp /opt/vp/mplconfig/fontlist*.json "$S"/ 2>/dev/null
export MPLCONFIGDIR="$S" MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 PYTHONHASHSEED=0
export VERIF_TIER="${VERIF_TIER:-quick}"
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
"$PY" check.py "$@"
