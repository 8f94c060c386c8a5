#!/bin/bash
# tools/testseed.sh <seed id>... : apply to /repo, build, tests, demo, the property's check; undo
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  bash /opt/vp/build.sh >/tmp/w/ts.log 2>&1 || { echo "$id: base build failed"; continue; }
  ( cd /repo && bash $d/demo.sh >/tmp/w/ts.demo0 2>&1 ); b=$?
  git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  find /repo/implicit -newer $d/patch.diff -name '*.pyc' -delete 2>/dev/null
  bash /opt/vp/build.sh >/tmp/w/ts.log 2>&1; bl=$?
  ( cd /repo && bash $d/demo.sh >/tmp/w/ts.demo1 2>&1 ); a=$?
  t=$(bash /opt/vp/test.sh /tmp/w/ts.json 2>/dev/null | tail -1)
  c=- ; [ -z "$NOCHECK" ] && { ( cd /verif && ./check.sh $prop quick >/tmp/w/ts.check 2>&1 ); c=$?; }
  git -C /repo checkout -q -- .
  echo "$id prop=$prop demo_base=$b build=$bl demo_patched=$a tests='$t' check=$c $(grep -c VIOLATION /tmp/w/ts.check) $(grep -m1 'rejected: ' /tmp/w/ts.check | cut -c1-100)"
done
bash /opt/vp/build.sh >/tmp/w/ts.log 2>&1
