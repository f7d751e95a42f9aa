#!/bin/bash
# proof runs only, in parallel
cd /verif; ids="$@"; [ -z "$ids" ] && ids=$(grep -l "^def ob_" contracts/C*.py | grep -o 'C[0-9]*' | sort)
mkdir -p /tmp/sa; echo $ids | tr ' ' '\n' | PYTHONHASHSEED=0 xargs -P 7 -I{} sh -c 'timeout 300 python3-vt engine/symrun.py {} /tmp/sa/{}.json -v > /tmp/sa/{}.log 2>&1'
for i in $ids; do echo "$i $(grep -c '^   proved' /tmp/sa/$i.log) proved, $(grep '^   ' /tmp/sa/$i.log | grep -vc '^   proved') not"; grep '^   ' /tmp/sa/$i.log | grep -v '^   proved' | cut -c1-300; done
