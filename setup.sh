#!/bin/bash
# Nothing to build: the specifications are interpreted by TLC and the harness by Python. Check that both are there.
set -e
HERE=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
. /opt/vp/env.sh
test -f /opt/veriftools/tla/tla2tools.jar
command -v java >/dev/null
/opt/venv/bin/python -c "import numpy, basix, networkx, gmsh"
mkdir -p "$HERE/evidence" "$HERE/out"
