#!/bin/bash
# build /repo, run its tests, compare with the baseline
cd /repo && bash /opt/vp/build.sh >/tmp/vb.log 2>&1 || { tail /tmp/vb.log; exit 1; }
bash /opt/vp/test.sh /tmp/vt.json >/tmp/vt.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'));t=json.load(open('/tmp/vt.json'))
k=[x for x in b if isinstance(b[x],list)]
base=set()
for x in k:
    if x in('passed','stable','tests','passing'): base|=set(b[x])
p=set(t['passed'])
print(len(base),len(p),"missing:",sorted(base-p))
P
