"""tools/where.py: which unit discharges each contract that another unit only uses (contracts/where.json)"""
import json,glob,subprocess,os
V='/verif'; p=json.load(open(V+'/props.json'))
units=sorted({u for k in p for u in p[k]['units']})
fn={};tr={}
os.makedirs('/verif/work/where',exist_ok=True)
for u in units:
    r=subprocess.run([V+'/target/extract/debug/osmx',f'{V}/contracts/{u}.vrs','/repo',f'/verif/work/where/{u}.rs',f'/verif/work/where/{u}.json'],capture_output=True,text=True)
    j=json.load(open(f'/verif/work/where/{u}.json'))
    fn[u]={f['source'] for f in j['functions']}; tr[u]=j['trusted']
    tr[u]={ (t if isinstance(t,str) else t['source']) for t in tr[u]}

where={}
for u in units:
    for f in fn[u]:
        where.setdefault(f,[]).append(u)
used={t for u in units for t in tr[u]}
props={u:[k for k in sorted(p) if u in p[k]['units']] for u in units}
out={t:(lambda u:f"{u} (check {', '.join(props[u])})")(sorted(where[t],key=lambda u:(len(fn[u]),u))[0]) if t in where else 'nowhere' for t in sorted(used)}
json.dump(out,open(V+'/contracts/where.json','w'),indent=0)
print(len(out),[t for t in out if out[t]=='nowhere'])
