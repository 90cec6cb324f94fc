#!/bin/bash
# Builds the MIR driver and the facts of /repo's current source.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence
exec python3 lib/facts.py
