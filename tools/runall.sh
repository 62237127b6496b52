#!/bin/bash
# run every claimed check (quick by default); prints one status line each
cd "$(dirname "$0")/.."
ids=${*:-$(python3 -c "
import json;print(' '.join(c['property'] for c in json.load(open('MANIFEST.json'))['checks']))")}
for i in $ids; do
  s=$(date +%s); o=$(timeout 3600 python3 run_check.py $i 2>&1); rc=$?
  echo "$i rc=$rc $(( $(date +%s)-s ))s $(echo "$o" | grep -E 'VIOLATION|NO-ANSWER|counterexample|native replay' | cut -c1-400 | tr '\n' ' ')"
done
