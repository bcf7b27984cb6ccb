#!/bin/bash
# build + stable tests against the baseline
bash /opt/vp/build.sh >/tmp/rt.log 2>&1 || { echo BUILD FAIL; tail -5 /tmp/rt.log; exit 1; }
bash /opt/vp/test.sh /tmp/rt.json >>/tmp/rt.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/rt.json'))
s=set(b.get('stable') or b.get('passed') or b); m=s-set(o['passed']); print('stable',len(s),'missing',sorted(m)); raise SystemExit(1 if m else 0)
P
