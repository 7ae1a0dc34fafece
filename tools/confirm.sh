#!/bin/bash
# dev helper: confirm planted bugs: demo passes on the clean tree; with the patch the tree builds, the stable tests pass and the demo fails; then run the property's check
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  (cd /repo && bash $d/demo.sh >/tmp/cf.out 2>&1); a=$?
  git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/cf.b 2>&1; b=$?
  bash /opt/vp/test.sh /tmp/cf.json >/dev/null 2>&1; t=$(python3 -c "import json;print(len(json.load(open('/tmp/cf.json'))['passed']))")
  (cd /repo && bash $d/demo.sh >/tmp/cf.out2 2>&1); c=$?
  (cd /verif && python3-vt check.py $p > /tmp/cf.chk 2>&1); k=$?
  git -C /repo checkout -- .
  echo "$id [$p] clean demo $a | build $b tests $t/3 | patched demo $c | check exit $k $(grep -c '^VIOLATION' /tmp/cf.chk) : $(tail -1 /tmp/cf.out2 | cut -c1-110)"
done
bash /opt/vp/build.sh >/dev/null 2>&1
