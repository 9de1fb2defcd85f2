#!/bin/bash
# try_bug.sh ID [PROPERTY...]: confirm a planted bug and run the checks of its property against it.
id=$1; shift
d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ $# -gt 0 ] || set -- $prop
[ -z "$(git -C /repo status --porcelain)" ] || { echo "dirty /repo"; exit 2; }
if [ -z "$SKIP_DEMO" ]; then
bash $d/demo.sh >/tmp/try.$id.base 2>&1; base=$?
fi
git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
if [ -z "$SKIP_DEMO" ]; then
(cd /repo && bash $d/demo.sh) >/tmp/try.$id.bug 2>&1; bug=$?
bash /opt/vp/build.sh >/tmp/try.$id.build 2>&1 || echo "$id: build fails"
bash /opt/vp/test.sh /tmp/try.$id.json >/dev/null 2>&1
tests=$(python3 -c "
import json;d=json.load(open('/tmp/try.$id.json'));print('failed:',d.get('failed'))" 2>&1)
grep -q 'error\[' /tmp/try.$id.bug && echo "$id: DOES NOT COMPILE"
fi
for p in "$@"; do
  s=$(date +%s)
  /verif/check $p --tier quick --seed ${SEED:-1} >/tmp/try.$id.$p 2>&1; c=$?
  echo "$id demo(clean)=$base demo(bug)=$bug $tests check $p=$c $(($(date +%s)-s))s $(grep -m1 VIOLATION /tmp/try.$id.$p)"
done
