#!/bin/bash
# full test + compare with baseline
bash /opt/vp/test.sh /tmp/out.json >/tmp/test.log 2>&1
python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open('/tmp/out.json'))
p=set(o['passed']); m=b-p
print('missing', len(m), sorted(m)[:30], 'extra passing', len(p-b))
P
