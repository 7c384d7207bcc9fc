#!/bin/bash
# run.sh <property> [--tier quick|thorough] [--case PATTERN] [--replay FILE]
here=$(cd "$(dirname "$0")" && pwd)
export LANG=C.UTF-8 LC_ALL=C.UTF-8 TZ=UTC PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 PROJ_NETWORK=OFF
unset PYTHONPATH
cd "$here" || exit 2
exec /opt/venv/bin/python -c 'import sys; sys.path.insert(0, sys.argv.pop(1)); from vlib.runner import main; sys.exit(main(sys.argv[1:]))' "$here" "$@"
