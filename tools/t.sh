#!/bin/bash
# run the repo tests and compare with the baseline
bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1
python3 - <<'P'
import json
d=json.load(open('/tmp/o.json'));b=json.load(open('/opt/vp/BASELINE.json'))
base=b if isinstance(b,list) else b.get('passed') or b.get('stable') or b.get('tests') or list(b.values())[0]
print('passed',len(d['passed']),'failed',d['failed'],'missing from baseline',[x for x in base if x not in d['passed']])
P
