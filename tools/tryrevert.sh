#!/bin/bash
# tryrevert.sh COMMIT CHECK...: are the checks red again with a fix reverted? (scratch worktree)
c=$1; shift
d=$(mktemp -d /tmp/rv.XXXX)
git -C /repo worktree add -q --detach $d HEAD >/dev/null 2>&1
if git -C $d revert -n $c >/dev/null 2>&1; then
  for k in "$@"; do echo "$c $k: $(VERIF_REPO=$d python3 /verif/check.py $k 2>/dev/null | grep '^OK\|^VIOL\|BUILD' | cut -c1-120)"; done
else echo "$c: does not revert cleanly"; fi
git -C /repo worktree remove --force $d
