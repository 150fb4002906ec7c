#!/bin/bash
# exit 0: behaves; nonzero: does not
export PYTHONPATH=/repo/_build:/repo/code/python PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=${OMP_NUM_THREADS:-1} LANG=C.UTF-8 LC_ALL=C.UTF-8 MPLBACKEND=Agg
export MPLCONFIGDIR=$(mktemp -d); trap 'rm -rf "$MPLCONFIGDIR"' EXIT
/opt/phd-venv/bin/python "$(dirname "$0")/demo.py"
