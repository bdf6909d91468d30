#!/bin/bash
# build + run baseline tests on the current tree; prints stable tests that no longer pass
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail -20 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/tmp/t.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/o.json'))
ps=set(x if isinstance(x,str) else x.get('name') for x in o['passed'])
miss=[t for t in b['stable'] if t not in ps]
print(len(ps),'passed; stable missing:',miss)
P
