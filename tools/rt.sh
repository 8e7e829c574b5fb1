#!/bin/bash
# build /repo and run its tests; report stable tests that fail
bash /opt/vp/build.sh > /tmp/b.log 2>&1 || { tail -20 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/o.json > /tmp/t.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/o.json'))
st=b.get('stable') or b.get('passed') or b
ps=set(o.get('passed',o))
miss=[x for x in (st if isinstance(st,list) else st.keys()) if x not in ps]
print("stable failing:",miss[:10], len(ps))
P
