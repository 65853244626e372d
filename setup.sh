#!/bin/bash
# Offline sanity check of the tools the checks need; nothing is built ahead of time
# (pycaption is pure Python and imported from /repo's working tree by every check).
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
mkdir -p "$here/evidence" "$here/replays"
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$here:/repo"
/opt/venv/bin/python -c 'import pbt.core, lxml, bs4, hypothesis; print("hypothesis", hypothesis.__version__)'
