#!/bin/bash
# bash check.sh Cxx : run one property check against /repo's working tree.
HERE=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
. /opt/vp/env.sh
export PYTHONHASHSEED=0
export JAVA_TOOL_OPTIONS=
exec /opt/venv/bin/python -B "$HERE/harness/main.py" "$@"
