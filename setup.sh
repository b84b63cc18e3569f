#!/bin/bash
# builds every instrumented target the checks use
cd "$(dirname "$0")" && exec python3 -B - <<'P'
import sys; sys.path.insert(0,'lib')
import vlib
try:
    print('built in %.0f s' % vlib.build(['verif_all']))
except vlib.HarnessError as e:
    print(e); sys.exit(1)
P
