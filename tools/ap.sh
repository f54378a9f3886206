#!/bin/bash
# ap.sh seed CHECK...: apply the seed's patch on a scratch src copy and run checks
S=/tmp/ap-$1; rm -rf $S; mkdir -p $S; cp -a /repo/src $S/; (cd $S && patch -s -p1 < /verif/seeded/$1/patch.diff) || exit 9
cd /verif; id=$1; shift
for c in "$@"; do GBDT_REPO=$S GBDT_EVIDENCE=$S.ev python3 -m sa.check $c 2>&1 | cut -c1-400; done
rm -rf $S $S.ev
