#!/bin/bash
# mutate.sh SCRIPT…: runs mutation scripts (tools/mutations/*.py) in a scratch worktree of /repo, which it makes and removes
W=/tmp/mutate.$$; git -C /repo worktree add -q --detach $W HEAD || exit 1
trap 'git -C /repo worktree remove --force '$W'; git -C /repo worktree prune; rm -rf /tmp/mutate.cache.'$$ EXIT
for s in "$@"; do CHK=$W VERIF_CACHE=/tmp/mutate.cache.$$ python3 "$s" 2>&1 | cut -c1-${W_:-200}; done
