#!/bin/bash
# Runs the repository's own test suite and reports what fails.
bash /opt/vp/test.sh /tmp/rt.json > /tmp/rt.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'));r=json.load(open('/tmp/rt.json'))
p=set(r['passed']); print(len(p),'passed; stable not passed:',[x for x in b['stable'] if x not in p][:10])
P
