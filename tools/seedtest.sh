#!/bin/bash
# seedtest.sh ID [CHECK]: applies seeded/ID/patch.diff to /repo, runs demo (before/after) and the check, reverts.  No repo tests (vcheck --bug does that).
id=$1; d=/verif/seeded/$id
prop=${2:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
cd /repo; git diff --quiet || { echo "repo dirty"; exit 2; }
[ -z "$SKIPDEMO" ] && { bash $d/demo.sh >/tmp/demo_clean.log 2>&1; echo "demo clean: $?"; }
git apply $d/patch.diff || exit 2
[ -n "$BUILD" ] && { bash /opt/vp/build.sh >/tmp/build.log 2>&1 || echo BUILD FAILED; }
[ -z "$SKIPDEMO" ] && { bash $d/demo.sh >/tmp/demo_bad.log 2>&1; echo "demo patched: $?"; }
[ -n "$TESTS" ] && { bash /opt/vp/test.sh /tmp/seedres.json >/tmp/test.log 2>&1; python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seedres.json'))
st=b.get('passed') or b.get('stable') or b
print('lost tests:', sorted(set(st)-set(r['passed']))[:10])
P
}
cd /verif; for p in $prop; do timeout 900 python3-vt -m cppcv.check $p 2>&1 | cut -c1-400| head -${LINES_:-12}; done
git -C /repo checkout -- .
[ -n "$BUILD" ] && { bash /opt/vp/build.sh >/tmp/build.log 2>&1; }
exit 0
