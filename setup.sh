#!/bin/bash
# nothing is built: the checks run the python sources of /repo's working tree directly
cd "$(dirname "$0")" || exit 1
mkdir -p evidence/replay
/opt/venv/bin/python -c 'import numpy, scipy' || exit 1
echo ready
