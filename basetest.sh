#!/bin/bash
# Run the repo's own test suite and compare with the stable baseline list.
bash /opt/vp/test.sh /tmp/basetest.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; r=json.load(open('/tmp/basetest.json'))
p=set(r['passed']); m=[x for x in b if x not in p]
print('stable',len(b),'missing',len(m)); print('\n'.join(m[:40]))
P
