#!/bin/bash
# run a check and print a per-case summary
cd "$(dirname "$0")"
timeout 3000 python3 check.py $1 ${2:-quick} 2>&1 | cut -c1-${W:-500}
python3 - $1 <<P
import json,sys
for c in json.load(open('evidence/'+sys.argv[1]+'.json'))['coverage']['cases']: print({k:c.get(k) for k in ('case','paths','paths_completed','vcs','vcs_unsat','max_vc_ms','elapsed')})
P
