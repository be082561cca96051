#!/bin/bash
# rev.sh : revert each fix, run its check
grep '^fixed:' /verif/known-findings.txt | sed 's/fixed: property=\(C[0-9]*\) \([0-9a-f]*\) .*/\1 \2/' | while read P C; do
 W=/tmp/rev-$C; rm -rf $W; cp -a /repo $W; cd $W
 if ! git revert -n $C >/dev/null 2>&1; then
   if [ "$(git diff --name-only --diff-filter=U)" = y.go ]; then git checkout -q HEAD -- y.go; /opt/vp/bin/goyacc asn1.y >/dev/null 2>&1; 
   else echo "$P $C CONFLICT $(git diff --name-only --diff-filter=U | tr '\n' ' ')"; rm -rf $W; continue; fi
 fi
 if git diff HEAD --name-only | grep -q asn1.y; then /opt/vp/bin/goyacc asn1.y >/dev/null 2>&1; fi
 if ! go build . ./cmd/... 2>/tmp/rev.err; then echo "$P $C NOBUILD $(tail -1 /tmp/rev.err)"; rm -rf $W; continue; fi
 VERIF_REPO=$W /verif/check.sh $P quick > /tmp/rev.out 2>&1; rc=$?
 echo "$P $C rc=$rc $(grep -m1 VIOLATION /tmp/rev.out | cut -c1-100)"
 rm -rf $W
done
