#!/bin/bash
# seedcheck.sh <id>... : confirm a planted bug (compiles, stable tests pass, demo fails with and passes without) and whether its check catches it
cd /verif
git -C /repo diff --quiet || { echo "repo dirty"; exit 2; }
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  bash /opt/vp/build.sh >/dev/null 2>&1
  (cd /repo && bash $d/demo.sh >/tmp/sc.$id.clean 2>&1); c=$?
  git -C /repo apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  t=$(bash tools/rt.sh 2>&1 | tail -1)
  (cd /repo && bash $d/demo.sh >/tmp/sc.$id.bug 2>&1); b=$?
  if [ -z "$NOCHECK" ]; then python3 run.py $p quick >/tmp/sc.$id.check 2>&1; k=$?; fi
  git -C /repo checkout -- .
  v=$(grep -c "^VIOLATION property=$p" /tmp/sc.$id.check 2>/dev/null)
  echo "$id [$p]: tests: $t | demo clean=$c bug=$b | check rc=$k violations=$v $(grep -m1 'scenario' /tmp/sc.$id.check 2>/dev/null | cut -c1-160)"
done
