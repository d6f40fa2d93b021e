#!/bin/bash
# fz.sh FROM N props... : quick fuzz, prints totals
cd /verif; f=$1; n=$2; shift 2
for p in "$@"; do ( timeout 200 target/sim/debug/sim fuzz $p $f $n > /tmp/f_$p.txt 2>&1; echo "## $p $(tail -1 /tmp/f_$p.txt)" ) & done; wait
