#!/bin/bash
# lost.sh: rebuild /repo, run its stable tests, print how many baseline tests are lost
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { echo BUILD FAILED; tail -5 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/t.json > /tmp/t.log 2>&1
python3 - <<'P'
import json
b=set(map(str,json.load(open('/opt/vp/BASELINE.json'))['stable'])); t=json.load(open('/tmp/t.json')); print('baseline tests lost:',sorted(b-set(map(str,t['passed'])))[:10])
P
