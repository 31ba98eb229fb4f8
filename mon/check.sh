#!/bin/bash
# check.sh <ID> [args]: runs one check against /repo's working tree.
D=$(cd "$(dirname "$0")" && pwd)
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONHASHSEED=0
export PYTHONPATH=${KAM_REPO:-/repo} LC_ALL=C.UTF-8
S=$(mktemp -d /tmp/kamcheck.XXXXXX) || exit 3
export PYTHONPYCACHEPREFIX=$S/pyc KAM_SCRATCH=$S/work TMPDIR=$S/work
mkdir -p "$S/work" "$S/pyc"
cd "$S/work" || exit 3
timeout -k 10 ${KAM_LIMIT:-3600} /opt/venv/bin/python "$D/run.py" "$@"
rc=$?
cd /
find "$S" -mindepth 0 -delete 2>/dev/null
exit $rc
