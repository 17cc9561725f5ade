#!/usr/bin/env python3
import json,glob,os,subprocess,time,sys
V="/verif"; st={}
for f in sorted(glob.glob(V+"/tools/props/C*.json")):
    i=json.load(open(f))["id"]; t=time.time()
    r=subprocess.run(["bash",V+"/check.sh",i,"quick"],capture_output=True,text=True); dt=time.time()-t
    import re
    m=re.search(r"obligations=(\d+)",r.stdout)
    e=json.load(open(f"{V}/evidence/{i}.json")); notes=" ".join(e["coverage"].get("notes") or [])
    eq=sum(int(x) for x in re.findall(r"(\d+) equations",notes))
    st[i]={"obligations":int(m[1]),"seconds":round(dt,1),"equations":eq}
json.dump(st,open(V+"/tools/design/stats.json","w"),indent=0)
