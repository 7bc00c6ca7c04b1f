#!/bin/bash
# developer helper: run the Kani harnesses with a given prefix
cd /verif/kani; export CARGO_NET_OFFLINE=true RUSTFLAGS="-Awarnings"
( time cargo kani --lib --target-dir /verif/.work/kani -j 8 --output-format terse --no-assertion-reach-checks --harness $1 "${@:2}" ) > /tmp/ko 2>&1
python3 - <<'P'
import re
cur={};name={};T={}
for l in open('/tmp/ko'):
    m=re.match(r'Thread (\d+): Checking harness (\S+)\.\.\.',l)
    if m: name[m[1]]=m[2]; continue
    m=re.match(r'Thread (\d+):',l)
    if m: t=m[1]; T.setdefault(name[t],''); cur=name[t]; continue
    if cur and 'Manual Harness' not in l: T[cur]+=l
    if 'Manual Harness' in l: cur=None
for n,x in sorted(T.items()):
    tm=re.search(r'Verification Time: ([\d.]+)',x); 
    print(n, 'OK' if 'SUCCESSFUL' in x else 'FAIL '+' | '.join(re.findall(r'Failed Checks: (.*)',x))[:300], re.findall(r'\*\* (.*)',x), tm and tm[1][:6])
P
grep -E "^error|^real|Complete" -A6 /tmp/ko | head -60
