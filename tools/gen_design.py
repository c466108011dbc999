#!/usr/bin/env python3
"""Rewrites the table of planted changes and the list of defects in DESIGN.md (between the markers). Not used by any check."""
import json,os,re,collections
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=[]
for d in sorted(os.listdir(V+"/seeded")):
    m=json.load(open(f"{V}/seeded/{d}/meta.json"))
    f=sorted(set(re.findall(r"^\+\+\+ b/(\S+)",open(f"{V}/seeded/{d}/patch.diff").read(),re.M)))
    c=lambda s:s.replace("|","/").replace("\n"," ").strip()
    rows.append(f"| {d} | {m['property']} | {', '.join(os.path.basename(x) for x in f)} | {c(m['needs'])} | {c(m['what_it_breaks'])} |")
tab="| change | caught by | file | needs | breaks |\n|---|---|---|---|---|\n"+"\n".join(rows)+"\n"
t=open(V+"/DESIGN.md").read()
t=re.sub(r"(<!-- planted -->\n).*?(<!-- /planted -->)",lambda m:m[1]+tab+m[2],t,flags=re.S)
n=collections.Counter(); L=[]
for l in open(V+"/known-findings.txt"):
    m=re.match(r"fixed: property=(\S+) (\S+) (.*)",l)
    if m: n[m[1]]+=1
s="Defects repaired, by property whose check showed them: "+", ".join(f"{k} {v}" for k,v in sorted(n.items()))+f" ({sum(n.values())} in all).\n"
t=re.sub(r"(<!-- defects -->\n).*?(<!-- /defects -->)",lambda m:m[1]+s+m[2],t,flags=re.S)
open(V+"/DESIGN.md","w").write(t)
