#!/bin/bash
# bug.sh ID [check...]: confirms the planted bug seeded/ID in a scratch copy and runs the checks against it in /repo
here=$(cd "$(dirname "$0")/.." && pwd); id=$1; shift; d=$here/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
wt=$(mktemp -d /tmp/bugXXXX); cp -a /repo/. $wt/
( cd $wt; timeout 300 bash $d/demo.sh >$wt.log 2>&1 ) || { echo "$id: DEMO FAILS ON CLEAN"; tail -20 $wt.log; }
git -C $wt apply $d/patch.diff || { echo "$id: DOES NOT APPLY"; rm -rf "$wt"; exit 1; }
( cd $wt; timeout 300 bash $d/demo.sh >$wt.log 2>&1 ) && echo "$id: DEMO PASSES WITH BUG"
grep -q "build failed\|setup failed" $wt.log && { echo "$id: DEMO BUILD FAILURE"; tail $wt.log; }
rm -rf "$wt" $wt.log
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
git -C /repo apply $d/patch.diff
bash /opt/vp/build.sh >/tmp/bug.build 2>&1 || echo "$id: BUILD FAILS"
bash /opt/vp/test.sh /tmp/bug.out 2>&1 | tail -1 | sed "s/^/$id tests: /"
for c in ${@:-$prop}; do
  timeout 900 bash $here/check.sh $c quick >/tmp/bug.check 2>&1; echo "$id check $c: exit $? $(grep -m1 VIOLATION /tmp/bug.check)"
done
git -C /repo checkout -q -- .
bash /opt/vp/build.sh >/tmp/bug.build 2>&1
