#!/bin/bash
# tools/fix.sh "message": run the stable tests, then commit /repo as a fix.
set -e
cd /repo
gofmt -l format cmd internal | grep -v pb.go || true
bash /opt/vp/build.sh >/dev/null
bash /opt/vp/test.sh /tmp/out.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/out.json'))
def names(x):
    if isinstance(x,list): return set(x)
    for k in ('stable','stable_pass','passed','pass','tests'):
        if k in x:
            v=x[k]
            return set(v) if isinstance(v,list) else {a for a,r in v.items() if r in ('pass','passed',True)}
    raise SystemExit(list(x)[:5])
m=names(b)-names(o)
if m: raise SystemExit('BROKEN TESTS: %s'%sorted(m)[:10])
print('tests ok', len(names(b)))
P
git commit -qam "$1"
git log --oneline | head -1
