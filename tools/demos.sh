#!/bin/bash
# demos.sh dir... : in a scratch copy, demo on clean and patched
for d in "$@"; do
 W=/tmp/dm.$$; cp -a /repo $W; cd $W
 bash $d/demo.sh >/tmp/dm.o 2>&1; a=$?
 git apply $d/patch.diff || echo NOAPPLY $d
 go build ./... ; bash $d/demo.sh >/tmp/dm.o2 2>&1; b=$?
 [ $a = 0 -a $b != 0 ] && echo "ok $(basename $d)" || echo "BAD $(basename $d) $a $b"
 cd /; rm -rf /tmp/dm.$$
done
