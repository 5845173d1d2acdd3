#!/bin/bash
# development helper: build /repo, run its tests, compare with the baseline
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { echo BUILD FAILED; tail -20 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/tmp/t.log 2>&1
python3 - <<'E'
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/o.json'))
miss=[t for t in b['stable'] if t not in o['passed']]
print('baseline:', len(b['stable'])-len(miss), 'of', len(b['stable']), 'missing', miss)
E
