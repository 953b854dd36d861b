#!/bin/bash
# plant.sh ID... : for each seeded bug, in private copies of /repo, the builds and /verif:
#   demo on the unchanged tree, then with the patch: build, stable tests, demo, quick check of its property
W=${W:-/tmp/pl}
if [ -z "$INNER" ]; then
  mkdir -p $W
  for d in repo opt/build opt/venv verif; do mkdir -p $W/$d; rsync -a --delete /$d/ $W/$d/ 2>/dev/null || { rm -rf "${W:?}/$d"; mkdir -p $W/$(dirname $d); cp -a /$d $W/$d; }; done
  export INNER=1
  exec unshare -Urm bash "$0" "$@"
fi
for d in repo opt/build opt/venv verif; do mount --bind $W/$d /$d; done
mkdir -p $W/tmp; mount --bind $W/tmp /tmp 2>/dev/null
. /opt/vp/env.inc
git config --global --add safe.directory '*' 2>/dev/null
cd /repo && git checkout -q -- . && git clean -qfd
for id in "$@"; do
  s=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  d=$(mktemp -d); cp $s/* $d/; rm -f $d/*.diff $d/meta.json
  cd /repo
  [ -n "$CHANGED" ] && bash /opt/vp/build.sh > /tmp/b.log 2>&1; CHANGED=
  timeout 300 bash $d/demo.sh > /tmp/d0.log 2>&1; r0=$?
  git apply $s/patch.diff || { echo "$id: PATCH DOES NOT APPLY"; continue; }
  cd /verif; timeout 900 ./check.sh $prop quick > /tmp/c.log 2>&1; rc=$?
  v=$(grep -c "^VIOLATION property=$prop" /tmp/c.log)
  cd /repo
  if [ -z "$SKIPTEST" ]; then miss=$(bash /verif/tools/stable.sh 2>&1 | tail -1); else bash /opt/vp/build.sh > /tmp/b.log 2>&1; miss=skipped; fi
  timeout 300 bash $d/demo.sh > /tmp/d1.log 2>&1; r1=$?
  echo "$id [$prop]: demo clean=$r0 patched=$r1 | check rc=$rc violations=$v | $miss"
  [ $r0 != 0 ] && tail -5 /tmp/d0.log
  [ $r1 = 0 ] && tail -5 /tmp/d1.log
  grep "^VIOLATION" /tmp/c.log | head -1
  git -C /repo checkout -q -- .; git -C /repo clean -qfd
  grep -q -E '^\+\+\+ .*\.(cpp|hpp)' $s/patch.diff && CHANGED=1
done
