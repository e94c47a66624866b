#!/bin/bash
# usage: sweep.sh CHECK seed1 seed2 ... ; prints distinct failures
c=$1; shift
for s in "$@"; do timeout 900 ./check $c --seed $s --keep-going > /tmp/sw.$c.$s 2>&1; grep -A1 "^---" /tmp/sw.$c.$s | grep "^---" | cut -c1-200; tail -1 /tmp/sw.$c.$s | cut -c1-150; done
