#!/bin/bash
# seed.sh ID...: validates planted bugs in a scratch worktree laid over /repo's path is impossible, so it applies them to /repo and reverts
for id in "$@"; do
  d=/verif/seeded/$id
  cp -a $d /tmp/demo_$id
  cd /repo || exit 2
  git diff --quiet || { echo "dirty repo"; exit 2; }
  timeout 300 bash /tmp/demo_$id/demo.sh >/tmp/demo_$id.clean 2>&1; c=$?
  git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/demo_$id.build 2>&1 || echo "$id: BUILD FAILS"
  timeout 300 bash /tmp/demo_$id/demo.sh >/tmp/demo_$id.bug 2>&1; b=$?
  if [ -z "$NOTEST" ]; then timeout 600 bash /opt/vp/test.sh /tmp/demo_$id.json >/dev/null 2>&1; t=$(python3 -c "import json;d=json.load(open('/tmp/demo_$id.json'));print('passed',len(d['passed']),'failed',d['failed'])"); fi
  chk=
  if [ -z "$NOCHECK" ]; then
    p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    chk=$(cd /verif && timeout 900 ./check $p 2>&1 | grep -E "VIOLATION|KNOWN" | tail -1)
  fi
  git -C /repo checkout -- .
  rm -rf /tmp/demo_$id
  echo "$id: clean=$c bug=$b tests: $t check: $chk"
done
