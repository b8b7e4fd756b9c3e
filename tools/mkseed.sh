#!/bin/bash
# tools/mkseed.sh ID PROPERTY PKG < edit.py
# Plants a bug in a scratch copy of /repo with the edit script on standard
# input (run in the copy), confirms that it builds, passes the tests and that
# seeded/ID/demo_test.go (a test in PKG) tells it apart, writes patch.diff and
# demo.sh, and reports which checks catch it (all given in $CHECKS, default
# PROPERTY).
set -e
id=$1 prop=$2 pkg=$3
d=/verif/seeded/$id
mkdir -p "$d"
. /opt/vp/env.sh
w=/tmp/seedwork
/bin/rm -rf /tmp/seedwork
git -C /repo diff --quiet || { echo "/repo has changes"; exit 1; }
cp -a /repo $w
cat > /tmp/seed_edit.py
(cd $w && python3 /tmp/seed_edit.py)
(cd $w && git diff > "$d/patch.diff")
[ -s "$d/patch.diff" ] || { echo "no change"; exit 1; }
cat > "$d/demo.sh" <<D
#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is not
here=\$(cd "\$(dirname "\$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=\$(mktemp -d)
trap '/bin/rm -rf "\$tmp"' EXIT
printf '{"Replace":{"%s/zz_demo_test.go":"%s/demo_test.go"}}' "\$PWD/$pkg" "\$here" > "\$tmp/overlay.json"
go test -overlay "\$tmp/overlay.json" -count=1 -timeout 120s -run TestDemo ./$pkg
D
chmod +x "$d/demo.sh"
(cd $w && go build ./... && GODEBUG=randautoseed=0 go test -json -vet=off -count=1 -timeout 10m ./... > /tmp/seed_tests.json 2>/dev/null || true)
python3 - <<'P' || exit 1
import json,sys
st=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
ok=set()
for l in open('/tmp/seed_tests.json'):
    d=json.loads(l)
    if d.get('Action')=='pass' and 'Test' in d: ok.add(d['Package']+'/'+d['Test'])
m=st-ok
if m: print('TESTS FAIL',sorted(m)[:5]); sys.exit(1)
P
(cd /repo && "$d/demo.sh" > /tmp/demo_ok.txt 2>&1) || { echo "DEMO FAILS ON THE UNCHANGED TREE"; tail -5 /tmp/demo_ok.txt; exit 1; }
if (cd $w && "$d/demo.sh" > /tmp/demo_bad.txt 2>&1); then echo "DEMO DOES NOT SEE THE CHANGE"; exit 1; fi
grep -m2 -E "demo_test.go|panic" /tmp/demo_bad.txt || true
for c in ${CHECKS-$prop}; do
  (set +e; cd /verif; VERIF_REPO=$w timeout 600 ./check "$c" > /tmp/seed_check.txt 2>&1; r=$?; echo "$id $c exit=$r $(grep -m1 -A1 VIOLATION /tmp/seed_check.txt | cut -c1-160)")
done
/bin/rm -rf /tmp/seedwork
