#!/bin/bash
# developer helper: build and triage one harness
LINES_MAX=60 /verif/b.sh $1
mkdir -p /tmp/t; ( time /verif/symx/target/debug/$1 -v "${@:2}" ) 2>/tmp/t/e >/tmp/t/o
grep -hE "^C[0-9]+|VIOL|inconcl [1-9]|viol [1-9]|mism [1-9]|^real|error" /tmp/t/o /tmp/t/e | head -${N:-30}
grep -hE "[0-9]+\.[0-9]+s paths" /tmp/t/o /tmp/t/e | sed -E 's/ {2,}/\t/g' | sort -t$'\t' -k2 -n | tail -4
