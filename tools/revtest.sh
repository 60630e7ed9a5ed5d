#!/bin/bash
# tools/revtest.sh COMMIT CHECK: does CHECK see the defect that COMMIT repaired come back?
cd /repo || exit 1
git show "$1" | git apply -R --3way >/dev/null 2>&1 || { git checkout -q HEAD -- . ; echo "$1 does not revert"; exit 2; }
git reset -q
VF_EVIDENCE=/tmp/rev_ev /verif/check "$2" --tier quick 2>&1 | tail -4 | cut -c1-160
git checkout -q HEAD -- .
