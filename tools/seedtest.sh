#!/bin/bash
# dev tool: seedtest.sh ID... — confirms in a scratch copy that each planted bug builds, passes the
# stable tests, and that its demo passes without and fails with it.
S=/tmp/seedwt
mkdir -p $S
if [ ! -d $S/repo ]; then cp -a /repo $S/repo; fi
cd $S/repo && git checkout -q -- . && git fetch -q /repo HEAD 2>/dev/null; git reset -q --hard $(git -C /repo rev-parse HEAD)
sed "s#/repo#$S/repo#g" /opt/vp/build.sh > $S/build.sh
sed "s#/repo#$S/repo#g; s#/opt/vp/logs#$S/logs#g" /opt/vp/test.sh > $S/test.sh
for id in "$@"; do
  d=/verif/seeded/$id
  git checkout -q -- .
  out="$id:"
  if [ -z "$SKIP_CLEAN" ]; then (cd $S/repo; timeout 300 bash $d/demo.sh > $S/demo0.log 2>&1); r0=$?; out="$out clean=$r0"; fi
  git apply --check $d/patch.diff && git apply $d/patch.diff || { echo "$out APPLY FAILS"; continue; }
  if [ -z "$SKIP_TESTS" ]; then
  if ! bash $S/build.sh > $S/build.log 2>&1; then echo "$out BUILD FAILS"; tail -30 $S/build.log; git checkout -q -- .; continue; fi
  bash $S/test.sh $S/o.json > $S/t.log 2>&1
  miss=$(python3 - <<P
import json
s=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=set(json.load(open('$S/o.json'))['passed'])
print(sorted(s-o))
P
)
  out="$out missing-tests=$miss"
  fi
  (cd $S/repo; timeout 300 bash $d/demo.sh > $S/demo1.log 2>&1); r1=$?
  echo "$out bug=$r1"
  if [ "$r0" != 0 -a -z "$SKIP_CLEAN" ]; then echo "--- clean demo log"; tail -20 $S/demo0.log; fi
  if [ "$r1" == 0 ]; then echo "--- bug demo log"; tail -20 $S/demo1.log; else tail -4 $S/demo1.log | sed 's/^/      /'; fi
  git checkout -q -- .
done
