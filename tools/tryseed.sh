#!/bin/bash
# tryseed.sh SEED CHECK...: which checks see the bug (applied to /repo and undone)
d=/verif/seeded/$1; shift
git -C /repo apply $d/patch.diff || exit 9
for c in "$@"; do timeout 880 /verif/check $c quick 2>&1 | cut -c1-220 | tail -4; done
git -C /repo checkout -- .
