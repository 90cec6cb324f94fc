#!/bin/bash
# try.sh ID...: runs the check of each planted bug's property (or $CHECKS) on a scratch worktree with the bug
W=/tmp/chk
[ -d $W ] || git -C /repo worktree add -q --detach $W HEAD
for id in "$@"; do
  git -C $W checkout -q -f $(git -C /repo rev-parse HEAD); git -C $W clean -qfd
  git -C $W apply /verif/seeded/$id/patch.diff || { echo "$id no apply"; continue; }
  for c in ${CHECKS:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}; do
    CED_REPO=$W timeout 900 bash /verif/check.sh $c >/tmp/try.out 2>&1; rc=$?
    echo "$id $c rc=$rc $(grep -E '^(VIOLATION|violation)' /tmp/try.out | head -3 | cut -c1-250) $( [ $rc -gt 1 ] && tail -3 /tmp/try.out)"
  done
done
git -C $W checkout -q -f $(git -C /repo rev-parse HEAD)
