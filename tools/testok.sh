#!/bin/bash
# builds /repo (or the copy given) and says whether the stable tests pass
cd "${1:-/repo}" || exit 2
bash /opt/vp/test.sh /tmp/testok.json > /tmp/testok.log 2>&1
python3 - <<'P'
import json,sys
t=json.load(open('/tmp/testok.json')); b=json.load(open('/opt/vp/BASELINE.json'))
m=[x for x in b['stable'] if x not in t['passed']]
print('missing:',m)
sys.exit(bool(m))
P
