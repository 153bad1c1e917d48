#!/bin/bash
# Prepares folders used by checks; everything else is built from /repo by the checks.
set -e
cd "$(dirname "$0")"
mkdir -p evidence replays
/opt/venv/bin/python -c "
import sys
sys.path.insert(0, 'lib')
import vp, engine
"
VP_NATIVE_FLAGS=-fsanitize-coverage=trace-pc /opt/venv/bin/python -c "
import sys
sys.path.insert(0, 'lib')
import vp, engine
"
