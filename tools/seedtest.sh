#!/bin/bash
# seedtest.sh <id> [nocheck]: confirm a planted bug (applies, builds, stable tests pass, demo distinguishes) and run its check on it
set -u
id=$1; d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 2; }
t=$(mktemp -d)
bash /opt/vp/build.sh >/dev/null 2>&1; ( cp -r $d $t/demo; rm -f $t/demo/patch.diff $t/demo/meta.json; bash $t/demo/demo.sh ) >$t/o1 2>&1; r1=$?
git apply $d/patch.diff || { echo "$id: does not apply"; rm -rf $t; exit 2; }
bash /opt/vp/build.sh >$t/b 2>&1; rb=$?
bash /opt/vp/test.sh $t/out.json >/dev/null 2>&1
python3 - $t/out.json <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open(sys.argv[1])); x=b-set(o['passed'])
print('tests: %d of %d stable pass'%(len(b)-len(x),len(b)), list(x)[:3])
P
( bash $t/demo/demo.sh ) >$t/o2 2>&1; r2=$?
echo "$id ($p): build=$rb demo clean=$r1 patched=$r2"; tail -2 $t/o2
if [ "${2:-}" != nocheck ]; then ( cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3-vt check.py $p ) > $t/c 2>&1; echo "check exit $?"; grep -E "VIOLATION|failed obligation|failed:|input:" $t/c | cut -c1-260 | head -8; tail -1 $t/c; fi
git checkout -q -- . ; bash /opt/vp/build.sh >/dev/null 2>&1; rm -rf $t
