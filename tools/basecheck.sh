#!/bin/bash
# build + run the stable tests of /repo and compare with the baseline
bash /opt/vp/build.sh >/dev/null 2>&1; bash /opt/vp/test.sh /tmp/out.json >/dev/null 2>&1
/opt/venv/bin/python -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/out.json'))
m=[t for t in b['stable'] if t not in o['passed']]
print(len(b['stable'])-len(m),'of',len(b['stable']),'stable pass; missing',m)"
