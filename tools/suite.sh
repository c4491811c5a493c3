#!/bin/bash
# run the repository's stable tests; exit 0 if all pass
TERM=dumb bash /opt/vp/test.sh /tmp/suite.json >/dev/null 2>&1
python3 - <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/suite.json'))
miss=[t for t in b['stable'] if t not in set(o['passed'])]
print('stable',len(b['stable']),'missing',len(miss),miss[:5])
sys.exit(bool(miss))
P
