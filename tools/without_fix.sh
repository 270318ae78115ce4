#!/bin/bash
# Demonstrates a repaired defect: runs a check on a copy of /repo with one fix commit reverted.
#   without_fix.sh <commit> <property>...
c=$1; shift
d=$(mktemp -d /tmp/wofix.XXXXXX)
git -C /repo worktree add -q --detach $d/wt HEAD || exit 2
git -C $d/wt -c user.name=x -c user.email=x revert -n $c >/dev/null || { echo "cannot revert $c"; git -C /repo worktree remove --force $d/wt; rm -rf $d; exit 2; }
for p in "$@"; do
  cp /verif/evidence/$p.json $d/ 2>/dev/null
  VERIF_REPO=$d/wt VERIF_BUILD=$d/build python3 $(dirname $0)/../run.py $p 2>&1 | grep -E "^violation|^VIOLATION|executions=" 
  cp $d/$p.json /verif/evidence/ 2>/dev/null
done
git -C /repo worktree remove --force $d/wt; rm -rf $d
