#!/bin/bash
# usage: fixc.sh "fix: message"  -- run stable tests on /repo and commit working tree if they pass
cd /repo || exit 2
bash /opt/vp/test.sh /tmp/t.json >/tmp/t.log 2>&1
/opt/venv/bin/python - <<'P' || { echo TESTS-FAILED; exit 1; }
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
def names(x):
    for k in ('passed','stable','tests','stable_tests'):
        if isinstance(x,dict) and k in x: return set(x[k])
    return set(x)
bs=names(b); ps=names(t)
miss=sorted(bs-ps)
print(len(bs),len(ps),'missing',miss[:5])
sys.exit(bool(miss) or len(bs)<600)
P
git -C /repo commit -qam "$1" && git -C /repo log --oneline | head -1
git -C /repo status --short | head
