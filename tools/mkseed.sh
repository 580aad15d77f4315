#!/bin/bash
# mkseed.sh <id> <property> : /tmp/seed/<id>/ holds edit.py (edits the copy in cwd), demo files,
# needs.txt, breaks.txt.  Validates in a scratch copy and writes /verif/seeded/<id>.
set -u
id=$1 src=/tmp/seed/$1
W=$(mktemp -d /tmp/seedwork.XXXXXX); trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"; cd "$W/repo" || exit 1
git checkout -q -- . 
out=/verif/seeded/$id; mkdir -p "$out"
cp "$src"/demo* "$out/"; chmod +x "$out/demo.sh"
rundemo() { # demos use cwd
  D=$(mktemp -d /tmp/seeddemo.XXXXXX); cp "$out"/demo* "$D/"; (cd "$W/repo" && timeout 280 bash "$D/demo.sh" >"$W/demo.out" 2>&1); r=$?; rm -rf "$D"; return $r; }
rundemo; r=$?; [ $r = 0 ] || { echo "$id: demo fails on clean tree ($r)"; tail -20 "$W/demo.out"; exit 1; }
python3 "$src/edit.py" || { echo "$id: edit failed"; exit 1; }
go build ./... && go vet . >/dev/null 2>&1; go build ./... || { echo "$id: does not build"; exit 1; }
git diff > "$out/patch.diff"
[ -s "$out/patch.diff" ] || { echo "$id: empty patch"; exit 1; }
sed 's,"$PWD" = /repo/scpsync,"${PWD##*/}" = scpsync,' /opt/vp/exec-test.sh > "$W/ex.sh"
GOFLAGS=-mod=mod flock /tmp/seedtest.lock go test -json -vet=off -count=1 -p 1 -exec "bash $W/ex.sh" ./... > "$W/test.out" 2>&1
python3 - "$W/test.out" <<'P' || { echo "$id: tests fail"; exit 1; }
import json,sys
ok={}
for l in open(sys.argv[1]):
    try: d=json.loads(l)
    except Exception: continue
    if d.get("Test") and d.get("Action") in("pass","fail"): ok[d["Package"]+"/"+d["Test"]]=d["Action"]
bad=[t for t in json.load(open("/opt/vp/BASELINE.json"))["stable"] if ok.get(t)!="pass"]
print(bad) if bad else None
sys.exit(bool(bad))
P
rundemo; r=$?; [ $r != 0 ] || { echo "$id: demo passes with the patch"; exit 1; }
python3 - "$2" "$src" "$out" <<'P'
import json,sys
p,s,o=sys.argv[1:]
json.dump({"property":p,"needs":open(s+"/needs.txt").read().strip(),"what_it_breaks":open(s+"/breaks.txt").read().strip()},open(o+"/meta.json","w"),indent=1)
P
echo "$id ok"
