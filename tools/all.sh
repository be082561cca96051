#!/bin/bash
# all.sh seeds... : all checks
cd /verif; for s in "$@"; do for i in $(seq -w 1 28); do VERIF_SEED=$s timeout 800 ./check.sh C$i > /tmp/o.$s.C$i 2>&1 || { echo "seed $s C$i FAIL"; grep -a -A6 -m1 -- '^---' /tmp/o.$s.C$i | cut -c1-400; }; done; done
