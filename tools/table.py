#!/usr/bin/env python3
"""rewrite the table of planted changes in DESIGN.md from seeded/*/meta.json"""
import json,os,re,collections
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t=collections.defaultdict(list)
for d in sorted(os.listdir(R+"/seeded")):
    t[json.load(open(f"{R}/seeded/{d}/meta.json"))["property"]].append(d)
s="<!-- table -->\n| Check | Planted changes it catches |\n|---|---|\n"+"".join(f"| {p} | {', '.join(t[p])} |\n" for p in sorted(t))+"<!-- /table -->"
f=R+"/DESIGN.md"; x=open(f).read()
x=x.replace("@@TABLE@@",s) if "@@TABLE@@" in x else re.sub(r"<!-- table -->.*?<!-- /table -->",lambda m:s,x,flags=re.S)
open(f,"w").write(x)
ps=[json.loads(l)["id"] for l in open(R+"/properties.jsonl")]
print({p:len(t[p]) for p in ps})
