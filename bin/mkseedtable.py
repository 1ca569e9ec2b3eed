#!/usr/bin/env python3
# Rewrites the table of planted bugs in DESIGN.md (between the markers) from seeded/*/meta.json.
import json,glob,os,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=["| id | property | what it breaks | needs | caught by |","|----|----|----|----|----|"]
for f in sorted(glob.glob(V+"/seeded/*/meta.json")):
    m=json.load(open(f)); i=os.path.basename(os.path.dirname(f))
    c=lambda s: s.replace("|","/").replace("\n"," ").strip()
    rows.append(f"| {i} | {m['property']} | {c(m['what_it_breaks'])} | {c(m['needs'])} | {m.get('caught_by',m['property'])} |")
d=open(V+"/DESIGN.md").read()
d=re.sub(r"<!--seeds-->.*?<!--/seeds-->","<!--seeds-->\n"+"\n".join(rows).replace("\\","\\\\")+"\n<!--/seeds-->",d,flags=re.S)
open(V+"/DESIGN.md","w").write(d)
