#!/bin/bash
# seedtest.sh ID...: confirm seeded changes in a scratch copy (build, stable tests, demo), without touching /repo
for id in "$@"; do
  D=$(mktemp -d /tmp/seed_XXXXXX)
  cp -a /verif/seeded/$id $D/seed
  out="$id:"
  # unchanged
  ( cd /repo && timeout 300 bash $D/seed/demo.sh >/$D/o0 2>&1 ); r0=$?
  if ! git -C /repo apply $D/seed/patch.diff 2>$D/e; then echo "$id: patch does not apply: $(cat $D/e)"; rm -rf $D; continue; fi
  bash /opt/vp/test.sh $D/t.json >$D/b 2>&1
  p=$(python3 -c "import json;d=json.load(open('$D/t.json'));print(len(d['passed']),d['failed'])")
  ( cd /repo && timeout 300 bash $D/seed/demo.sh >$D/o1 2>&1 ); r1=$?
  c=""
  if [ -n "$CHECK" ]; then prop=$(python3 -c "import json;print(json.load(open('$D/seed/meta.json'))['property'])"); ( cd /verif && python3 check.py $prop > $D/c 2>&1 ); c="check=$? $(grep VIOLATION $D/c)"; [ -n "$VERBOSE" ] && cat $D/c; fi
  git -C /repo checkout -q -- .
  echo "$id: unchanged demo=$r0 tests: $p; patched demo=$r1 $c"
  rm -rf $D
done
bash /opt/vp/build.sh >/dev/null 2>&1
