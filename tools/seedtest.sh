#!/bin/bash
# seedtest.sh ID...: confirms seeded changes in scratch copies (private mount namespace, copy bound over /repo):
# demo passes on the clean tree; the patch applies, builds, keeps the stable tests; demo fails; which checks catch it.
V=$(cd "$(dirname "$0")/.." && pwd)
one() {
  id=$1; S=/tmp/seedtest-$id
  cp -a /repo $S
  unshare -m bash -c '
    V='$V'; id='$id'; S='$S'; D=$V/seeded/$id
    mount --bind $S /repo || exit 9
    cd /repo; git checkout -q -- .
    bash /opt/vp/build.sh > $S.log 2>&1
    timeout 300 bash $D/demo.sh >> $S.log 2>&1 || { echo "$id: demo FAILS on clean tree (see $S.log)"; exit; }
    git apply $D/patch.diff || { echo "$id: patch does not apply"; exit; }
    bash /opt/vp/build.sh >> $S.log 2>&1 || { echo "$id: does not build (see $S.log)"; exit; }
    bash /opt/vp/test.sh $S.json >> $S.log 2>&1
    python3 - $S.json <<P || { echo "$id: breaks stable tests"; exit; }
import json,sys
b=json.load(open("/opt/vp/BASELINE.json")); r=json.load(open(sys.argv[1]))
st=b if isinstance(b,list) else b.get("stable") or b.get("passed") or b
miss=[t for t in st if t not in r["passed"]]
print(*miss[:3]) if miss else None
sys.exit(bool(miss))
P
    timeout 300 bash $D/demo.sh >> $S.log 2>&1 && { echo "$id: demo PASSES with the patch"; exit; }
    cd $V; out=""
    for c in ${CHECKS:-$(ls sa/checks | grep -o "^c[0-9][0-9]*" | tr c C)}; do
      GBDT_EVIDENCE=$S.ev timeout 900 python3 -m sa.check $c > $S.$c.out 2>&1; rc=$?
      [ $rc = 1 ] && out="$out $c"; [ $rc -gt 1 ] && out="$out $c(rc=$rc)"
    done
    p=$(python3 -c "import json;print(json.load(open(\"$D/meta.json\"))[\"property\"])")
    echo "$id [$p]: good; caught by:$out"'
  rm -rf /tmp/seedtest-$id /tmp/seedtest-$id.ev
}
if [ $# = 1 ]; then one $1; else printf "%s\n" "$@" | xargs -P 3 -n 1 bash "$0"; fi
