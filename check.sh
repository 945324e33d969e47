#!/bin/bash
# bash check.sh C01 [--tier quick|thorough] [--seed N] [--runs N] [--workers N]
# bash check.sh --replay FILE
# Runs the simulation for one property on the code in /repo's working tree.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PIP_NO_INDEX=1
export PYTHONHASHSEED="${PYTHONHASHSEED:-0}" MPLCONFIGDIR="${MPLCONFIGDIR:-/tmp/verif-mpl-$$}"
export PYTHONPATH="${SIM_REPO:-/repo}"
/opt/venv/bin/python -X faulthandler -W ignore -m sim.main "$@"
rc=$?
case "$MPLCONFIGDIR" in /tmp/verif-mpl-$$) rm -rf "/tmp/verif-mpl-$$" ;; esac
exit $rc
