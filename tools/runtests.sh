#!/bin/bash
# builds /repo and reports which stable tests do not pass
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { grep -n "error:" /tmp/b.log | head; exit 1; }
bash /opt/vp/test.sh /tmp/t.json >/dev/null 2>&1
python3 - <<'P'
import json
t=json.load(open('/tmp/t.json')); b=json.load(open('/opt/vp/BASELINE.json'))
miss=set(b['stable'])-set(t['passed'])
print(len(t['passed']),'passed; missing:',sorted(miss))
P
