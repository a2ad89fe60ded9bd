#!/bin/bash
# usage: run.sh ID quick|thorough [--replay FILE]    (run from anywhere)
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 PYTHONHASHSEED=0
# never read or write byte code of the tree under test: always compile its current source
scratch="$(mktemp -d)"
trap 'rm -rf -- "$scratch"' EXIT
export PYTHONPYCACHEPREFIX="$scratch"
export PYTHONPATH="$here:${SPGREP_REPO:-/repo}/src"
cd "$here" || exit 2
/opt/venv/bin/python -m mc.runner "$@" 2>"$scratch/err"
rc=$?
if [ $rc -ne 0 ]; then grep -v '^spglib:' "$scratch/err" | tail -n 40 >&2; fi
exit $rc
