#!/bin/bash
# run the repository's tests and compare with the baseline list
bash /opt/vp/test.sh /tmp/t.json >/tmp/t.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
def names(x):
    if isinstance(x,dict):
        for k in ('passed','passing','tests','stable'):
            if k in x: return set(x[k]) if not isinstance(x[k],dict) else set(x[k])
    return set(x)
B=names(b); T=names(t)
print(len(B),len(T),'missing:',sorted(B-T)[:10])
P
