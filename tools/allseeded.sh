#!/bin/bash
# all planted bugs against the current checks, in copies
for d in ${@:-/verif/seeded/*/}; do id=$(basename $d); p=${id%%-*}; W=/tmp/as-$id; rm -rf $W; cp -a /repo $W
 (cd $W && git apply $d/patch.diff) || { echo "$id NOAPPLY"; rm -rf $W; continue; }
 VERIF_REPO=$W /verif/check.sh $p quick > /tmp/as.out 2>&1; rc=$?; [ $rc = 1 ] && grep -aq "^VIOLATION property=$p " /tmp/as.out || echo "$id MISSED rc=$rc"
 rm -rf $W; done; echo finished
