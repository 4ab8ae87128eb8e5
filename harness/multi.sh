#!/bin/bash
# multi.sh PID budget nseeds: run by hand, several seeds in parallel, short report
cd "$(dirname "$0")"
P=$1; B=${2:-30}; N=${3:-6}; F=${4:-1}
for i in $(seq $F $((F+N-1))); do (./go.sh $P --budget $B --seed $i --out /tmp/mo_${P}_$i.json >/dev/null 2>&1)& done; wait
python3 - $P $F $N <<'Q'
import json,sys
p,f,n=sys.argv[1],int(sys.argv[2]),int(sys.argv[3])
tot={};seen=set()
for i in range(f,f+n):
    d=json.load(open(f'/tmp/mo_{p}_{i}.json'))
    for k,v in d['stats'].items(): tot[k]=tot.get(k,0)+v
    for h in d['harness_errors'][:1]: print('HERR',h['message'][:400])
    for v in d['violations']:
        m=v['message'][:60]
        if m in seen: continue
        seen.add(m); print('VIOL',v['message'][:500]); print('   ',json.dumps(v['case'])[:1500])
    for k,v in d['known'].items():
        if k not in seen: seen.add(k); print('KNOWN',k,v['count'],v['message'][:150])
print(p,tot)
Q
