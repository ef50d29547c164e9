#!/bin/bash
# tryseed.sh ID [check...] -- validate planted bug ID in a scratch copy of /repo
# (builds, stable tests, demo on both trees), then run its property's check.
ID=$1; S=/verif/seeded/$ID; W=/tmp/try.$ID
rm -rf "$W"; mkdir -p "$W"; cp -a /repo "$W/repo"
for f in build test; do sed "s#/repo#$W/repo#g; s#/opt/vp/build.sh#$W/build.sh#g" /opt/vp/$f.sh > "$W/$f.sh"; done
[ -f "$S/patch.diff" ] || { echo "$ID: no patch"; exit 3; }
demo() { ( mkdir -p "$W/demo"; cp "$S"/* "$W/demo/"; rm -f "$W"/demo/*.diff "$W"/demo/meta.json; cd "$W/repo" && timeout 300 bash "$W/demo/demo.sh" ) > "$W/demo.log" 2>&1; }
bash "$W/build.sh" > "$W/log" 2>&1 || { echo "$ID: clean build fails"; exit 3; }
demo; a=$?; [ $a = 0 ] || { echo "$ID: demo fails on the clean tree ($a)"; tail -5 "$W/demo.log"; }
git -C "$W/repo" apply "$S/patch.diff" || { echo "$ID: patch does not apply"; exit 3; }
bash "$W/test.sh" "$W/out.json" > "$W/log" 2>&1
python3 - "$W/out.json" <<'P' || { echo "$ID: TESTS FAIL"; grep -i "error" "$W/log" | head -3; }
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p=set(json.load(open(sys.argv[1]))['passed'])
print('  failing:', sorted(b-p)) if b-p else None
sys.exit(1 if b-p else 0)
P
demo; b=$?; [ $b != 0 ] || echo "$ID: DEMO PASSES WITH THE BUG"
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
[ "$2" = none ] || for p in ${2:-$P}; do r=$(MC_REPO=$W/repo timeout 900 /verif/check $p 2>&1 | grep -E '^(VIOLATION|OK|FAILURE|ERROR)' | cut -c1-200 | tr '\n' '|'); echo "$ID demo=$a/$b $p: $r"; done
rm -rf "$W"
