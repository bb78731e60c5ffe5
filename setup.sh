#!/bin/bash
# Offline setup: compiles /repo's C++ modules once so that the checks only rebuild what changed.
cd "$(dirname "$0")" || exit 1
exec python3 - <<'PY'
import sys
sys.path.insert(0, 'lib')
import core, shutil
c = core.Ctx('setup', 'quick', 1)
c.build()
shutil.rmtree(c.work, ignore_errors=True)
print('setup done')
PY
