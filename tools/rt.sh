#!/bin/bash
# run repo tests and compare with the baseline
bash /opt/vp/test.sh /tmp/o.json > /tmp/o.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/o.json'))
def passed(d):
    for k in ('passed','stable','tests'):
        if k in d: return set(d[k])
    print(list(d)); return set()
print('missing:', sorted(passed(b)-passed(o))[:20], len(passed(o)))
P
