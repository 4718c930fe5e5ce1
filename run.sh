#!/bin/bash
# run.sh C03 [--replay FILE] : run one property's check (VERIF_SEED, VERIF_TIER)
cd "$(dirname "$(realpath "$0")")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
unset PYTHONPATH COSIPY_DIR NUMBA_DISABLE_JIT
exec /opt/venv/bin/python -m harness.check "$@"
