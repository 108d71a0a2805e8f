#!/bin/bash
# tools/bug.sh save <id>      : write /repo's uncommitted change to seeded/<id>/patch.diff and undo it
# tools/bug.sh confirm <id>   : demo on clean tree, then apply, build, stable tests, demo, check; undo
V=$(cd "$(dirname "$0")/.." && pwd)
D=$V/seeded/$2
case $1 in
save) mkdir -p $D; git -C /repo diff > $D/patch.diff; git -C /repo checkout -- .; wc -l $D/patch.diff;;
confirm)
  [ -z "$(git -C /repo status --porcelain)" ] || { echo dirty; exit 1; }
  P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  T=$(mktemp -d); cp -r $D/. $T/; rm -f $T/patch.diff $T/meta.json
  if [ "$3" != fast ]; then
  bash /opt/vp/build.sh > /tmp/bug.build 2>&1 || { echo clean build failed; exit 1; }
  (cd /repo && timeout 300 bash $T/demo.sh > /tmp/bug.demo0 2>&1); echo "demo clean: $?"
  fi
  git -C /repo apply $D/patch.diff || exit 1
  if [ "$3" != fast ]; then
  bash /opt/vp/test.sh /tmp/bug.json > /tmp/bug.test 2>&1
  python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/bug.json'))
s=b['stable']
s=set(x if isinstance(x,str) else x['name'] for x in s)
m=s-set(x if isinstance(x,str) else x['name'] for x in r['passed'])
print('tests: %d stable, missing %d %s'%(len(s),len(m),sorted(m)[:4]))"
  (cd /repo && timeout 300 bash $T/demo.sh > /tmp/bug.demo1 2>&1); echo "demo with bug: $? $(tail -1 /tmp/bug.demo1)"
  fi
  (cd $V && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 run.py check $P --tier quick 2>&1 | tail -3; echo "check exit ${PIPESTATUS[0]}")
  git -C /repo checkout -- .
  rm -rf $T
  [ "$3" = fast ] || bash /opt/vp/build.sh > /tmp/bug.build 2>&1;;
esac
