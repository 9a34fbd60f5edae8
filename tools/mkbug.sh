#!/bin/bash
# mkbug.sh ID: takes the changes in the scratch copy /tmp/w/repo as a planted
# bug, checks that it builds, passes the stable tests and that its demo
# (already in /verif/seeded/ID) tells the two trees apart; then resets the copy.
set -u
id=$1; d=/verif/seeded/$id; r=/tmp/w/repo
export HOME=/tmp/w/home GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
mkdir -p "$HOME"
cd $r || exit 1
if ! git diff --quiet; then git diff > $d/patch.diff; fi
git checkout -q -- . && git clean -fdq
bash $d/demo.sh >/tmp/w/demo0.log 2>&1 || { echo "$id: demo FAILS on the unchanged tree"; tail -5 /tmp/w/demo0.log; exit 1; }
git apply $d/patch.diff || exit 1
go build ./... || { echo "$id: does not build"; git checkout -q -- .; exit 1; }
if bash $d/demo.sh >/tmp/w/demo1.log 2>&1; then echo "$id: demo PASSES with the bug"; git checkout -q -- .; exit 1; fi
if [ "${2:-}" != notest ]; then
rm -rf /tmp/w/home/.powcache
go test -json -vet=off -count=1 -p 1 -timeout 10m ./... > /tmp/w/test.json
python3 - <<'P'
import json
base=json.load(open('/opt/vp/BASELINE.json'))
names=base.get('passed') or base.get('stable') or base
ok=set(); bad=set()
for l in open('/tmp/w/test.json'):
    try: e=json.loads(l)
    except: continue
    if e.get('Test') and e['Action']=='fail': bad.add(e['Package']+' '+e['Test'])
print('failing tests:',sorted(bad))
P
fi
git checkout -q -- .
echo "$id: fine"
