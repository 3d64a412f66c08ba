#!/bin/bash
# rtrun.sh PROP SECS SEEDS... : run the bounded checks alone, in parallel
P=$1; S=$2; shift 2
cd /verif/work
for s in "$@"; do ${PYREAL:-/opt/venv/bin/python} -B /verif/rt/main.py $P --secs $S --seed $s > /tmp/rt-$P-$s.json 2>/tmp/rt-$P-$s.err & done; wait
for s in "$@"; do python3 - $P $s <<'P'
import json,sys
p,s=sys.argv[1:]
try: d=json.loads(open('/tmp/rt-%s-%s.json'%(p,s)).read().strip().split('\n')[-1])
except Exception: print(open('/tmp/rt-%s-%s.err'%(p,s)).read()[-1500:]); sys.exit()
print(s,d['cases'],d['skipped'],d['distinct'],d['per_check'])
for f in d['failures']+d['errors']: print(f['check'],f['seed'],f['message'][:1500])
P
done
