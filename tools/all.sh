#!/bin/bash
# all.sh [tier] [properties...]: every check, one line each
cd "$(dirname "$0")/.."
t=${1:-quick}; shift
ps=${*:-$(python3 -c "import json;print(' '.join(json.loads(l)['id'] for l in open('properties.jsonl')))")}
mkdir -p .build/log
for p in $ps; do
  s=$(date +%s); python3 tools/check.py $p $t > .build/log/$p.$t 2>&1; rc=$?
  echo "$p rc=$rc $(( $(date +%s) - s ))s $(grep -c '^VIOLATION' .build/log/$p.$t) $(tail -1 .build/log/$p.$t | cut -c1-150)"
done
