#!/bin/bash
# usage: fixm.sh dir1 "fix: msg1" dir2 "fix: msg2" ... -- run the stable tests on /repo once, then one commit per src/meshio/<dir>
cd /repo || exit 2
bash /opt/vp/test.sh /tmp/t.json >/tmp/t.log 2>&1
/opt/venv/bin/python - <<'P' || { echo TESTS-FAILED; exit 1; }
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
def names(x):
    for k in ('passed','stable','tests','stable_tests'):
        if isinstance(x,dict) and k in x: return set(x[k])
    return set(x)
bs=names(b); ps=names(t); miss=sorted(bs-ps)
print(len(bs),len(ps),'missing',miss[:5])
sys.exit(bool(miss) or len(bs)<600)
P
while [ $# -ge 2 ]; do git -C /repo commit -qm "$2" -- src/meshio/$1; git -C /repo log --oneline | head -1; shift 2; done
git -C /repo status --short | head
