#!/bin/bash
# Nothing needs building ahead of time: every check is self-contained and rebuilds the extensions of /repo itself.
cd "$(dirname "$0")" || exit 1
command -v java > /dev/null || { echo "java missing" >&2; exit 1; }
[ -x /opt/venv/bin/python ] || exit 1
mkdir -p evidence .cache
for m in spec/*Trace.tla; do [ -f "$m" ] || exit 1; done
exit 0
