#!/usr/bin/env python3
"""Writes DESIGN.md from head.md, the properties, methods.py, catches.txt and tail.md."""
import json,glob,os,re,textwrap
H=os.path.dirname(os.path.abspath(__file__)); V=os.path.dirname(os.path.dirname(H))
ns={}; exec(open(H+"/methods.py").read(),ns); M=ns["M"]
def w(s): return "\n".join(textwrap.wrap(s,88,break_long_words=False,break_on_hyphens=False))
out=[open(H+"/head.md").read().rstrip()+"\n"]
stats={}
if os.path.exists(H+"/stats.json"): stats=json.load(open(H+"/stats.json"))
out.append("## The properties\n")
out.append(w("For each: what is decided and how, against what oracle, within what bounds, at what cost, and why that reaches what the tests cannot. Statements are in `properties.jsonl`; the equations (the oracle, in Go, one pair of functions each) in `sa/refs/`.")+"\n")
for f in sorted(glob.glob(V+"/tools/props/C*.json")):
    d=json.load(open(f)); i=d["id"]
    out.append(f"### {i} {d['title']}\n")
    m=M[i]
    s=stats.get(i)
    if "not_applicable" in d:
        out.append(w("Not applicable: "+d["not_applicable"])+"\n"); continue
    out.append(w("*How.* "+m[0]))
    out.append(w("*Bounds.* "+m[1][0].upper()+m[1][1:]+". "+d["level_note"]))
    if s: out.append(w(f"*Cost.* {s['obligations']} obligations"+(f", {s['equations']} equations" if s.get('equations') else "")+f", {s['seconds']:.1f} s."))
    out.append(w("*Beyond the tests.* "+d["why_tests_cant"])+"\n")
fx=[l for l in open(V+"/known_findings.txt") if l.startswith("fixed:")]
out.append("## Planted bugs and what catches them\n")
rows=[l.rstrip("\n").split("|",3) for l in open(H+"/catches.txt") if "|" in l]
n=sum(1 for r in rows if r[2]=="1")
out.append(w(f"{len(rows)} bugs in `seeded/`, written from the statements and the code; each compiles, passes the existing tests and has a demonstration. The checks of their own property catch {n} of them (rule and the first construct reported). Those missed at first are what led to the rules named in the git history; none is missed now" + ("." if n==len(rows) else f" except {', '.join(r[0] for r in rows if r[2]!='1')}."))+"\n")
out.append("| bug | needs | caught by | first report at |\n|---|---|---|---|")
for r in rows:
    try: meta=json.load(open(f"{V}/seeded/{r[0]}/meta.json"))
    except FileNotFoundError: continue
    needs=meta["needs"].replace("|","/")
    m=re.match(r"\s*(\S+) (.*?) at (\S+?):",r[3])
    rule,con,where=(m[1],m[2],m[3]) if m else ("",r[3][:80],"")
    eq=re.search(r"\[(\w+)\]$",con)
    out.append(f"| {r[0]} | {needs} | {r[1]} {rule}{' ('+eq[1]+')' if eq else ''} | `{where}` |")
out.append("")
tail=open(H+"/tail.md").read().replace("count below",f"{len(fx)} so far")
out.append(tail)
open(V+"/DESIGN.md","w").write("\n".join(out).rstrip()+"\n")
print(len(rows),"bugs",n,"caught",len(fx),"fixes")
