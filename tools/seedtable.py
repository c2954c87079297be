#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import glob,json,os
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
p=os.path.join(V,"DESIGN.md")
s=open(p).read()
h="| planted bug | property | needs |\n|---|---|---|\n"
i=s.index(h)
rows=[]
for f in sorted(glob.glob(os.path.join(V,"seeded/*/meta.json"))):
    m=json.load(open(f))
    rows.append("| %s | %s | %s |\n"%(f.split("/")[-2],m["property"],m["needs"].replace("\n"," ").replace("|","/")))
open(p,"w").write(s[:i]+h+"".join(rows))
