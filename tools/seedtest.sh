#!/bin/bash
# seedtest.sh ID... : confirms planted changes in a scratch copy (applies, builds, passes the stable tests, the
# demonstration fails with it and passes without it) and runs the check of its property against the copy.
S=${SEEDREPO:-/tmp/seedrepo}
VERIF=$(cd "$(dirname "$0")/.." && pwd)
prep() {
  if [ ! -d $S ]; then cp -a /repo $S; rm -rf "$S/_build"; fi
  git -C $S checkout -q -- . ; git -C $S pull -q /repo HEAD 2>/dev/null || { git -C $S fetch -q /repo HEAD && git -C $S reset -q --hard FETCH_HEAD; }
  sed "s#cd /repo#cd $S#" /opt/vp/build.sh > $S.build.sh
  sed "s#/repo/#$S/#g; s#/opt/vp/build.sh#$S.build.sh#" /opt/vp/test.sh > $S.test.sh
}
for id in "$@"; do
  d=$VERIF/seeded/$id
  prep
  bash $S.build.sh > /tmp/seed.clean.log 2>&1 || { echo "$id: clean build fails"; exit 2; }
  mkdir -p /tmp/seeddemo; rm -rf /tmp/seeddemo/$id; cp -r $d /tmp/seeddemo/$id; rm -f /tmp/seeddemo/$id/*.diff /tmp/seeddemo/$id/meta.json
  (cd $S && timeout 300 bash /tmp/seeddemo/$id/demo.sh) > /tmp/seed.demo0 2>&1; r0=$?
  git -C $S apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  bash $S.test.sh /tmp/seed.out.json > /tmp/seed.build.log 2>&1
  n=$(python3 -c "
import json;a=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);b=set(json.load(open('/tmp/seed.out.json'))['passed']);print(len(a-b))")
  (cd $S && timeout 300 bash /tmp/seeddemo/$id/demo.sh) > /tmp/seed.demo1 2>&1; r1=$?
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  c=-
  if [ -z "$NOCHECK" ]; then
    VT_REPO=$S VT_BUILD=${S}_vt python3 $VERIF/vt/check.py $p quick > /tmp/seed.check.$id 2>&1; c=$?
  fi
  git -C $S checkout -q -- .
  echo "$id: property $p, stable tests lost $n, demo clean $r0 (want 0), demo patched $r1 (want nonzero), check exit $c (want 1)"
done
