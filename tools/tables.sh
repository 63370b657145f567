#!/bin/bash
# every mutation table: lines that are not "ok" are misses or false alarms
cd "$(dirname "$0")/.."
for f in tools/tables/${1:-m}*.py; do echo "== $f"; python3 tools/mt.py $f 2>&1 | grep -v "^ok" | cut -c1-220; done
