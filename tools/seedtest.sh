#!/bin/bash
# seedtest.sh ID [check]: in a scratch copy of /repo: the patch applies, builds, the stable tests pass, demo.sh passes without and
# fails with it; then runs the check of its property on the patched copy.
V=$(cd "$(dirname "$0")/.." && pwd); ID=$1; S=$V/seeded/$ID
W=/tmp/seedtest-$ID; rm -rf "$W"; mkdir -p "$W"; cp -a "${LIBCWD_REPO:-/repo}" "$W/repo"; cp -a "$S" "$W/s"; rm -f "$W/s/patch.diff" "$W/s/meta.json"
cd "$W/repo"; git checkout -q -- .
bash "$W/s/demo.sh" > "$W/o1" 2>&1; a=$?
git apply "$S/patch.diff" || { echo "$ID: patch does not apply"; exit 1; }
bash "$W/s/demo.sh" > "$W/o2" 2>&1; b=$?
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
t=skipped
if [ "$2" != nocheck ]; then
  git -C /repo diff --quiet && git -C /repo apply "$S/patch.diff" && { bash /opt/vp/build.sh > "$W/o3" 2>&1 && bash /opt/vp/test.sh "$W/t.json" > "$W/o4" 2>&1; t=$(python3 -c "
import json;d=json.load(open('$W/t.json'));b=json.load(open('/opt/vp/BASELINE.json'))
print(json.dumps(d)[:300])" 2>&1); git -C /repo checkout -q -- . ; bash /opt/vp/build.sh >/dev/null 2>&1; }
fi
echo "$ID ($P): demo unpatched=$a patched=$b tests: $t"; tail -n 2 "$W/o1"; tail -n 2 "$W/o2"
[ "$3" = demo ] && exit; cd $V; LIBCWD_REPO="$W/repo" VERIF_BUILD="$W/build" timeout 900 python3 checks/run.py $P > "$W/check" 2>&1; c=$?
echo "check $P: exit $c"; grep -A2 VIOLATION "$W/check" | head -3 | cut -c1-400; tail -1 "$W/check" | cut -c1-300
rm -rf "$W"
