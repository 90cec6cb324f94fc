#!/bin/bash
# check.sh <property id>: decides one property from /repo's current source
cd "$(dirname "$0")" || exit 2
exec python3 lib/check.py "$@"
