#!/bin/bash
# run.sh <property> <quick|thorough>: the command registered in MANIFEST.json.
here="$(cd "$(dirname "$0")" && pwd)"
PY=/opt/venv/bin/python
[ -r /opt/vp/env.sh ] && . /opt/vp/env.sh
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
exec "$PY" "$here/check.py" "$@"
