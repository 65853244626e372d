#!/bin/bash
# usage: run.sh PROPERTY [quick|thorough] [--replay FILE] [--facet NAME] ...
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 LANG=C.UTF-8 LC_ALL=C.UTF-8
export PYTHONPATH="$here:/repo" PYTHONIOENCODING=utf-8 PYTHONWARNINGS=ignore
unset PYCAPTION_DEFAULT_LANG
exec /opt/venv/bin/python -m pbt "$@"
