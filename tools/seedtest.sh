#!/bin/bash
# tools/seedtest.sh <seed id> [--notests]: confirm a planted bug in a scratch copy, and see which check reports it.
# Development aid; not part of any registered check.
VROOT=${VROOT:-/verif}; R=${VF_REPO:-/repo}; ID=$1; S=$VROOT/seeded/$ID; W=/tmp/seed-$ID
[ -d "$S" ] || exit 9
rm -rf "/tmp/seed-$ID"; mkdir -p "$W"
cp -a "$R" "$W/repo"; cp -r "$S" "$W/demo"; rm -f "$W"/demo/*.diff "$W"/demo/meta.json
cd "$W/repo" || exit 9
git apply "$S/patch.diff" || { echo "$ID: PATCH DOES NOT APPLY"; exit 9; }
for f in build.sh test.sh one-file.sh; do sed -e "s#/repo#$W/repo#g; s#/opt/vp/\(build\|one-file\).sh#$W/\1.sh#g; s#CCACHE_DIR=/opt/vp/ccache#CCACHE_DIR=$W/ccache#; s#unset GITHUB_ACTIONS PYTHONPATH#unset GITHUB_ACTIONS; export PYTHONPATH=$W/repo#; s#HOME=\$T LSLCONFIGDIR#PYTHONPATH=$W/repo HOME=\$T LSLCONFIGDIR#" /opt/vp/$f > "$W/$f"; done
if [ "$2" != "--notests" ]; then
  bash "$W/test.sh" "$W/out.json" > "$W/test.log" 2>&1
  python3 - "$W/out.json" "$ID" <<'P'
import json,sys
base=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); out=json.load(open(sys.argv[1]))
bad=sorted(base-set(out['passed']))
print('%s: TESTS %s' % (sys.argv[2], 'ok' if not bad else 'BROKEN: %s' % bad[:8]))
P
else bash "$W/build.sh" > "$W/build.log" 2>&1 || echo "$ID: BUILD FAILED"; fi
(cd "$R" && PYTHONPATH=$R timeout 300 bash "$W/demo/demo.sh" > "$W/demo0.log" 2>&1); a=$?
(cd "$W/repo" && PYTHONPATH=$W/repo timeout 300 bash "$W/demo/demo.sh" > "$W/demo1.log" 2>&1); b=$?
echo "$ID: DEMO unchanged=$a patched=$b"
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
VF_REPO=$W/repo VF_EVIDENCE=$W/ev $VROOT/check $P > "$W/check.log" 2>&1; c=$?
echo "$ID: CHECK $P exit=$c $(grep -m1 'clause:' "$W/check.log" | cut -c1-150)"
[ "$a" = 0 ] && [ "$b" != 0 ] && [ "$c" = 1 ] && rm -rf "/tmp/seed-$ID"
