#!/bin/bash
# Runs the repo's tests and says which stable ones do not pass.
bash /opt/vp/test.sh /tmp/t.json >/tmp/t.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
print('stable not passing:', sorted(set(b['stable'])-set(t['passed']))[:20], 'passed', len(t['passed']), 'failed', len(t['failed']))
P
