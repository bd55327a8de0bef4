#!/bin/bash
# developer helper: prof.sh UNIT -> slowest functions
U=$1; shift; cd /verif/work/$U
verus u.rs --crate-type=bin --triggers-mode silent --output-json --time-expanded "$@" > prof.json 2>/dev/null
python3 - <<'P'
import json
d=json.load(open('prof.json'))
print(d['verification-results'])
r=[]
for m in d['times-ms']['smt']['smt-run-module-times']:
    for f in m.get('function-breakdown',[]): r.append((f['time'],f['rlimit'],f['function']))
r.sort(reverse=True)
for x in r[:15]: print(x)
P
