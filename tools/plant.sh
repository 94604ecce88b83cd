#!/bin/bash
# plant.sh ID [SECS]: verify a planted bug in a scratch copy and run its check against it.
# Prints: build, tests, demo clean, demo bugged, check verdict.
id=$1; secs=${2:-40}
. /opt/vp/env.sh
S=/verif/seeded/$id
W=/tmp/plant/$id
mkdir -p /tmp/plant; rm -rf "/tmp/plant/$id"
mkdir -p "$W"; cp -a /repo "$W/repo"; cp -a /verif/sim "$W/sim"; mkdir -p "$W/d"; cp "$S"/* "$W/d/"; rm -f "$W/d/patch.diff" "$W/d/meta.json"
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
sed -i "s#=> /repo#=> $W/repo#" "$W/sim/go.mod"
cd "$W/repo" || exit 3
bash "$W/d/demo.sh" >"$W/demo0.log" 2>&1; d0=$?
git apply "$S/patch.diff" || { echo "$id: patch does not apply"; exit 3; }
go build ./... || { echo "$id: does not build"; exit 3; }
go test -json -vet=off -count=1 -timeout 10m ./... > "$W/go.json" 2>/dev/null
python3 - "$W/go.json" <<'P' > "$W/t.log"
import json,sys
st=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
ok=set()
for l in open(sys.argv[1]):
    try: d=json.loads(l)
    except Exception: continue
    if d.get('Action')=='pass' and d.get('Test'): ok.add(d['Package']+'/'+d['Test'])
print('missing', len(st-ok), sorted(st-ok)[:3])
P
bash "$W/d/demo.sh" >"$W/demo1.log" 2>&1; d1=$?
if [ "$secs" = 0 ]; then echo "$id $prop demo $d0/$d1 tests $(cat $W/t.log)"; rm -rf "/tmp/plant/$id"; exit; fi
mkdir -p "$W/rp"
cd "$W/sim" && export GOCACHE=/verif/.build/gocache && go build -tags verif -o "$W/vsim" . || exit 3
s1=$secs; [ $prop = C06 ] && s1=24
timeout 800 "$W/vsim" check -prop $prop -seed 1 -runs 100000000000 -secs $s1 -replays "$W/rp" -part "$W/p.part" > "$W/check.log" 2>&1; rc=$?
if [ $prop = C06 ] && [ $rc = 0 ]; then
 go build -race -tags verif -o "$W/vsimr" . || exit 3
 timeout 800 "$W/vsimr" check -prop $prop -seed 1 -runs 100000000000 -secs 35 -replays "$W/rp" -part "$W/p.part" >> "$W/check.log" 2>&1; rc=$?
fi
echo "$id $prop demo $d0/$d1 tests $(cat $W/t.log) check rc=$rc $(grep -m1 VIOLATION $W/check.log | cut -c1-200)"
cp "$W/check.log" "/tmp/plant/$id.log"; cp "$W/demo1.log" "/tmp/plant/$id.demo1"; cp "$W/demo0.log" "/tmp/plant/$id.demo0"
rm -rf "/tmp/plant/$id"
