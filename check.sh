#!/bin/bash
# usage: check.sh <property id> [quick|thorough] | check.sh --replay <file>
# Explores the behaviours of the real code in /repo/src for one property.
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="${REOR_SRC:-/repo/src}:$here"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
cache="$(mktemp -d /tmp/mc_pyc.XXXXXX)"
export PYTHONPYCACHEPREFIX="$cache"
[ -n "$2" ] && [ "$1" != --replay ] && export VERIF_TIER="$2"
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
cd "$here"
"$py" -m mc.main "$@"
rc=$?
rm -rf "$cache"
exit $rc
