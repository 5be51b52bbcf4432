#!/bin/bash
# plant.sh DIR: confirms a planted bug in a scratch copy of /repo: the patch
# applies, it builds, the stable tests pass, and the demonstration passes
# without it and fails with it.
D=$(cd "$1" && pwd); T=$(mktemp -d /tmp/plant.XXXXXX); trap 'rm -rf "$T"' EXIT
R=$T/gp/src/github.com/mit-dci/zksigma; mkdir -p "$(dirname "$R")"
git clone -q /repo "$R" || exit 1
export GO111MODULE=off GOPATH=$T/gp GOFLAGS= GOWORK=off GOTOOLCHAIN=local
mkdir "$T/demo"; cp "$D"/* "$T/demo/"; rm -f "$T"/demo/*.diff "$T"/demo/meta.json
cd "$R"
bash "$T/demo/demo.sh" > "$T/o1" 2>&1 || { echo "$1: demo fails on the unchanged tree"; tail -5 "$T/o1"; exit 1; }
git apply "$D/patch.diff" || { echo "$1: patch does not apply"; exit 1; }
go build ./btcec ./wire . || { echo "$1: does not build"; exit 1; }
go test -vet=off -count=1 -json ./btcec ./wire . > "$T/log" 2>/dev/null
python3 - "$T/log" <<'P' || { echo "$1: stable tests fail"; exit 1; }
import json,sys
base=json.load(open('/opt/vp/BASELINE.json'))
ok=set(); 
for l in open(sys.argv[1]):
    try: e=json.loads(l)
    except ValueError: continue
    if e.get('Action')=='pass' and e.get('Test'): ok.add(e['Test'])
miss=[n for n in base['stable'] if n.split('/')[-1] not in ok]
if miss: print('failing:',miss); sys.exit(1)
P
if bash "$T/demo/demo.sh" > "$T/o2" 2>&1; then echo "$1: demo passes with the patch"; exit 1; fi
echo "$1: ok ($(tail -1 "$T/o2" | cut -c1-150))"
