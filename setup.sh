#!/bin/bash
# nothing to build: the checks are Python and import /repo's working tree; make sure the interpreter has what it needs
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh 2>/dev/null
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
S=$(mktemp -d) && trap '/bin/rm -rf "$S"' EXIT
MPLCONFIGDIR="$S" "$PY" -c "import numpy, scipy, pandas, matplotlib; print('ok', numpy.__version__, scipy.__version__)"
