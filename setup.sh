#!/bin/bash
# nothing to compile: the framework is pure Python; fails early when a tool is missing
cd "$(dirname "$0")" || exit 1
. ./env.sh
mkdir -p evidence
chmod +x check.sh replay.sh 2>/dev/null
exec "$PY" -W ignore -c "
import symx.harness, symx.zz, symx.loader
print('symx ready')"
