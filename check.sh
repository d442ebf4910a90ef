#!/bin/sh
# usage: check.sh <module> [--replay FILE | --space NAME]
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d /tmp/mcrun.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/pyc" "$tmp/home" "$tmp/work" "$tmp/t"
MC_SCRATCH="$tmp/work" HOME="$tmp/home" PYTHONPYCACHEPREFIX="$tmp/pyc" TMPDIR="$tmp/t" \
PYXRC="$here/mc/pyxrc" LC_ALL=C.UTF-8 PYTHONHASHSEED=0 PYTHONPATH="${PYX_REPO:-/repo}:$here" \
OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 \
/opt/venv/bin/python -c 'import sys; from mc import core; sys.exit(core.main(sys.argv[1], sys.argv[2:]))' "$@"
rc=$?
exit $rc
