#!/bin/bash
# tools/seedtest.sh [-t] ID...: builds a scratch copy of /repo with seeded/ID applied (bind-mounted on /repo in a mount
# namespace), runs its demo and its property's quick check there; -t also runs the stable tests.
T=0; [ "$1" = -t ] && { T=1; shift; }
V=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  S=/tmp/seedtest.$$.$id
  cp -a /repo "$S"
  cp -a "$V/seeded/$id" "$S.seed"
  P=$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
  unshare -m bash -c '
    S=$1; V=$2; T=$3; P=$4; id=$5
    mount --bind $S /repo; cd /repo
    bash $S.seed/demo.sh > $S.demo0 2>&1; D0=$?
    git apply $S.seed/patch.diff || { echo "$id: patch does not apply"; exit; }
    bash /opt/vp/build.sh > $S.build 2>&1; B=$?
    bash $S.seed/demo.sh > $S.demo1 2>&1; D1=$?
    K=-
    if [ $T = 1 ]; then bash /opt/vp/test.sh $S.json > /dev/null 2>&1; K=$(python3 -c "
import json
b=json.load(open(\"/opt/vp/BASELINE.json\")); r=json.load(open(\"$S.json\"))
b=b.get(\"passed\", b.get(\"stable\", b)) if isinstance(b, dict) else b
m=sorted(set(b)-set(r[\"passed\"]))
print(\"ok\" if not m else \"BROKEN:\"+\",\".join(m[:5]))"); fi
    cd $V; timeout 900 python3 check.py $P > $S.chk 2>&1; C=$?
    N=$(grep -c "^VIOLATION property=$P" $S.chk)
    echo "$id: build=$B demo(base)=$D0 demo(patched)=$D1 tests=$K check=$P rc=$C violations=$N $(grep -m1 "cases=" $S.chk)"
    [ $D0 != 0 ] && tail -5 $S.demo0
    [ $B != 0 ] && tail -5 $S.build
    cp $S.chk /tmp/seedtest.last.$id
  ' x "$S" "$V" $T $P $id
  rm -rf "$S" "$S.seed" "$S".*
done
