#!/bin/bash
# build everything the checks need (offline)
cd "$(dirname "$0")" || exit 1
mkdir -p evidence target
exec python3-vt -c "
from vlib import drv, qstate
drv.build(('drv', 'selene-hugr-qis-compiler'))
print('gate tables agree on', qstate.selftest(), 'gates')
"
