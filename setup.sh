#!/bin/bash
# Builds the MIR driver and warms the dependency build used by the checks.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
exec python3-vt -c "
import sys; sys.path.insert(0,'engine')
import core
lib, b = core.load()
print('driver built; %d functions of %s dumped' % (len(lib.fns), lib.name))
"
