#!/bin/sh
# show.sh PID [budget]: run by hand, short report
cd "$(dirname "$0")"
./go.sh $1 --budget ${2:-15} $3 $4 $5 $6 --out /tmp/show_$1.json
python3 - $1 <<'P'
import json,sys
d=json.load(open(f'/tmp/show_{sys.argv[1]}.json'))
print(d['property'],d['evaluations'],'distinct',d['distinct_nontrivial'],d['stats'],d['kinds'])
for h in d['harness_errors'][:3]: print('HERR',h['message'][:600]); print(json.dumps(h['case'])[:300])
for v in d['violations']: print('VIOL',v['message'][:600]); print('   ',json.dumps(v['case'])[:900])
for k,v in d['known'].items(): print('KNOWN',k,v['count'],v['message'][:200])
P
