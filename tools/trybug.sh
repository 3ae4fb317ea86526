#!/bin/bash
# tools/trybug.sh ID [-n]  : confirm a planted bug in /repo (restored afterwards) and run its property's check
# -n skips the build and the test suite
id=$1; d=/verif/seeded/$id
cd /repo || exit 1
[ -z "$(git status --porcelain --untracked-files=no)" ] || { echo "repo dirty"; exit 1; }
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
if [ "$2" != -n ]; then
  bash $d/demo.sh >/tmp/demo0.log 2>&1; echo "$id demo clean: $?"
fi
git apply $d/patch.diff || exit 1
if [ "$2" != -n ]; then
  bash /opt/vp/build.sh >/tmp/b.log 2>&1 || echo "$id BUILD FAILED"
  bash /opt/vp/test.sh /tmp/out.json >/tmp/tt.log 2>&1
  python3 - <<'P'
import json
o=json.load(open('/tmp/out.json')); b=json.load(open('/opt/vp/BASELINE.json'))
want=b['stable']
miss=[t for t in want if t not in set(o['passed'])]
print("tests passed", len(o['passed']), "missing", miss[:3])
P
  bash $d/demo.sh >/tmp/demo1.log 2>&1; echo "$id demo patched: $?"
fi
for p in $prop $EXTRA; do (cd /verif && timeout 900 python3-vt engine/check.py $p | tail -4); done
git checkout -q -- .
