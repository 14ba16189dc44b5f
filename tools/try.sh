#!/bin/bash
# tools/try.sh BUG CHECK...: applies a planted bug, runs the checks, undoes it
b=$1; shift
git -C /repo apply /verif/seeded/$b/patch.diff || exit 9
for c in "$@"; do timeout 900 /verif/check.sh $c > /tmp/try.out 2>&1; echo "$b $c exit $?"; grep -A1 -m2 VIOLATION /tmp/try.out | tail -2; done
git -C /repo checkout -- .
