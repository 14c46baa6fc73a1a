#!/bin/bash
# tryseed.sh ID [PROP...]: confirm a planted change in a scratch copy and
# run the checks against it there.
V=$(cd "$(dirname "$0")/.." && pwd)
ID=$1; shift
W=/tmp/seed-$ID
rm -rf "$W"; mkdir -p "$W"
cp -a /repo "$W/repo"
cd "$W/repo" || exit 2
cp -r "$V/seeded/$ID" "$W/d"; rm -f "$W/d/patch.diff" "$W/d/meta.json"
bash "$W/d/demo.sh" > "$W/demo0.log" 2>&1; echo "$ID demo clean rc=$?"
git apply "$V/seeded/$ID/patch.diff" || { echo "$ID PATCH FAILS"; exit 2; }
bash "$W/d/demo.sh" > "$W/demo1.log" 2>&1; echo "$ID demo patched rc=$?"
mkdir -p "$W/t"
cp go.mod "$W/t/m.mod"; cp go.sum "$W/t/m.sum"
(export HOME=/root GOTOOLCHAIN=local GOPROXY=off TMPDIR=$W/t; go vet -mod=mod -modfile="$W/t/m.mod" ./... >/dev/null 2>&1; go test -mod=mod -modfile="$W/t/m.mod" -json ./... > "$W/t/test.json" 2>"$W/t/err")
python3 - "$W/t/test.json" "$ID" <<'P'
import json,sys
st=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
ok=set()
names={}
for l in open(sys.argv[1]):
    try: e=json.loads(l)
    except: continue
    if e.get('Action')=='pass' and e.get('Test'):
        ok.add(e['Package']+'::'+e['Test']); ok.add(e['Package']+'.'+e['Test']); ok.add(e['Package']+'/'+e['Test']); ok.add(e['Package'].replace('github.com/netauth/netauth/','')+'::'+e['Test']); ok.add(e['Package'].replace('github.com/netauth/netauth/','')+'/'+e['Test'])
m=sorted(s for s in st if s not in ok)
print(sys.argv[2],'stable tests failing:',len(m),m[:6])
P
PROP=$(python3 -c "import json;print(json.load(open('$V/seeded/$ID/meta.json'))['property'])")
for p in $PROP "$@"; do
  (cd "$V" && VMON_REPO="$W/repo" VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 run.py $p quick > "$W/check-$p.log" 2>&1); rc=$?
  echo "$ID check $p rc=$rc $(grep -m1 VIOLATION "$W/check-$p.log" | cut -c1-200)"
done
[ -n "$KEEP" ] || { chmod -R u+w "$W"; rm -rf "$W"; }
