"""developer helper: python3 tools/setp.py ID units=a,b level=proof note=... bounded=... assume=...;...  then regenerates MANIFEST.json"""
import json, subprocess, sys
p = "/verif/props.json"
d = json.load(open(p))
e = d[sys.argv[1]]
for a in sys.argv[2:]:
    k, v = a.split("=", 1)
    if k == "units": e["units"] = [x for x in v.split(",") if x]
    elif k == "assume": e["assumptions"] = [x.strip() for x in v.split(";;") if x.strip()]
    else: e[k] = v
json.dump(d, open(p, "w"), indent=1)
subprocess.run(["python3", "/verif/tools/manifest.py"], check=True)
