#!/bin/sh
# nothing to build: TLC reads specs/ and the harness imports /repo's working tree
cd "$(dirname "$0")" || exit 2
mkdir -p evidence
/opt/venv/bin/python -B -c "
import sys; sys.path.insert(0, 'harness')
import vlib; vlib.bootstrap(); vlib.java_cp(); print('ok')"
