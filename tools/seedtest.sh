#!/bin/bash
# seedtest.sh ID [nocheck]: confirm one planted bug in a scratch copy and run its check.
export PATH=$PATH:/opt/veriftools/go1.27.3/bin HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
id=$1; d=/verif/seeded/$id; wt=/tmp/sw-$id
git -C /repo worktree remove --force "$wt" 2>/dev/null
git -C /repo worktree add -q --detach "$wt" HEAD || exit 1
cd "$wt"
demo=$(mktemp -d /tmp/demo.XXXXXX); cp -r $d/. $demo/; rm -f $demo/*.diff $demo/meta.json
timeout 300 bash $demo/demo.sh >/tmp/sd.$id.clean 2>&1 && a=ok || a=BAD
git apply $d/patch.diff || { echo "$id patch does not apply"; exit 1; }
go build ./... || { echo "$id does not build"; }
go test -json -vet=off -count=1 -timeout 10m ./... > /tmp/sd.$id.test 2>/dev/null
b=$(python3 - /tmp/sd.$id.test <<'P'
import json,sys
st=json.load(open('/opt/vp/BASELINE.json'))['stable']
bad=set()
for l in open(sys.argv[1]):
    try: e=json.loads(l)
    except Exception: continue
    if e.get('Action')=='fail' and e.get('Test'): bad.add(e['Package']+'::'+e['Test'])
print('tests-ok' if not bad else 'TESTS-FAIL '+' '.join(sorted(bad)))
P
)
timeout 300 bash $demo/demo.sh >/tmp/sd.$id.bug 2>&1 && c=BAD || c=ok
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
r=
if [ "$2" != nocheck ]; then
  REPO=$wt bash /verif/check.sh $p quick > /tmp/sd.$id.chk 2>&1; rc=$?
  r="check rc=$rc $(grep -m1 VIOLATION /tmp/sd.$id.chk)"
fi
echo "$id [$p] demo-clean=$a $b demo-bug=$c $r"
cd /; git -C /repo worktree remove --force "$wt"
rm -rf "$demo"
