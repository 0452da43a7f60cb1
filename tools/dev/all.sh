#!/bin/bash
# all checks in the current dir; prints last line each
for p in $(python3 -c "import json;print(' '.join(c['property'] for c in json.load(open('MANIFEST.json'))['checks']))"); do
 o=$(python3 run.py $p --tier quick 2>&1); rc=$?; echo "$p rc=$rc $(echo "$o" | grep -a "scenarios," | tail -1)"; [ $rc != 0 ] && echo "$o" | head -5 | cut -c1-500
done
