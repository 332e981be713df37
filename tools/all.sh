#!/bin/bash
# every quick check, one after another: all.sh [ID...]
cd "$(dirname "$0")/.."
for i in ${@:-$(python3 -c "import json;print(*[json.loads(l)['id'] for l in open('properties.jsonl')])")}; do
  timeout 900 python3 lib/check.py $i > /tmp/all.$i.log 2>&1; rc=$?
  echo "$i rc=$rc $(tail -1 /tmp/all.$i.log | cut -c1-200)"
done
