#!/bin/bash
# run checks given (default all) in parallel, print what is not clean
cd /verif; ids="$@"; [ -z "$ids" ] && ids=$(ls contracts | grep -o '^C[0-9]*' | sort)
mkdir -p /tmp/ra; echo $ids | tr ' ' '\n' | xargs -P 7 -I{} sh -c 'timeout 800 python3 run.py {} -v > /tmp/ra/{}.log 2>&1; echo "rc $?" >> /tmp/ra/{}.log'
for i in $ids; do cut -c1-${W:-420} /tmp/ra/$i.log; done
