#!/bin/bash
# build + run the repository tests; prints stable tests that do not pass
bash /opt/vp/build.sh >/tmp/build.log 2>&1 || echo BUILD FAILED
bash /opt/vp/test.sh /tmp/t.json >/tmp/test.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
st=b.get('passed') or b.get('stable') or b.get('tests') or b
ps=t.get('passed')
bad=[x for x in st if x not in ps]
print("stable",len(st),"passing now",len(ps),"missing",bad)
P
