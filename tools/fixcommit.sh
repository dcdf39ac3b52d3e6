#!/bin/bash
# usage: fixcommit.sh "message": build + stable tests, then commit /repo's working tree.
set -e
cd /repo
bash /opt/vp/build.sh >/tmp/fb.log 2>&1 || { tail -40 /tmp/fb.log; exit 1; }
bash /opt/vp/test.sh /tmp/ft.json >/tmp/ft.log 2>&1 || true
python3 - <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/ft.json'))
def names(x):
    for k in ('passed','pass','stable','stable_passing'):
        if isinstance(x,dict) and k in x: return set(x[k])
    raise SystemExit(f"keys {list(x)}")
m=names(b)-names(r)
print("missing:",m)
sys.exit(1 if m else 0)
P
git add -A && git commit -qm "$1" && git log --oneline -1
