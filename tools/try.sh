#!/bin/bash
# tools/try.sh SEED CHECK...: the checks on /repo with a planted bug, which is undone afterwards
S=$1; shift
git -C /repo apply /verif/seeded/$S/patch.diff || exit 2
for c in "$@"; do python3 /verif/check.py $c | tail -4; done
git -C /repo checkout -- .
