#!/bin/bash
# Checks that the tools are there. Nothing is kept: every check extracts, proves and builds from /repo's tree itself.
set -e
command -v verus cargo python3 >/dev/null
cd "$(dirname "$0")/.."
python3 - <<'PY'
import sys; sys.path.insert(0,'tools')
import assemble, rsx
print('setup ok')
PY
