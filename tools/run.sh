#!/bin/bash
# run.sh ID [repo]: short output of one rule
cd /verif; [ -n "$2" ] && export CED_REPO=$2
VERIF_DEBUG=1 bash check.sh $1 > /tmp/run.$1 2>&1; echo rc=$?; grep -a -v "^      " /tmp/run.$1 | cut -c1-${W:-230} | head -${N:-40}
