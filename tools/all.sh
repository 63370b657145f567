#!/bin/bash
# run all checks in parallel: all.sh ROOT
cd /verif; mkdir -p /tmp/allev
ls checks/p??.py | sed 's/.*p\(..\).py/P\1/' | xargs -P 7 -I{} sh -c "VERIF_EVID=/tmp/allev VERIF_DETAIL=200 python3 check.py {} --root ${1:-/repo} ${2:+--tier $2} > /tmp/allev/{}.log 2>&1; echo {} rc=\$? \$(head -c 150 /tmp/allev/{}.log | head -1)" | sort
