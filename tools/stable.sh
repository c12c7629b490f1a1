#!/bin/bash
# development aid: stable tests of /repo against the baseline
bash /opt/vp/test.sh /tmp/t.json >/tmp/t.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
st=b.get('stable') or b.get('passed')
p=set(t.get('passed') or [])
miss=[x for x in st if x not in p]
print('stable',len(st),'missing',miss[:10])
P
