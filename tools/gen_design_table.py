#!/usr/bin/env python3
"""Refreshes the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json,glob,os,re
rows=["<!-- seeded -->","| planted bug | caught by | needs |","|---|---|---|"]
for d in sorted(glob.glob("/verif/seeded/*/")):
    m=json.load(open(d+"meta.json")); rows.append(f"| {os.path.basename(d[:-1])} | {m['property']} | {m['needs']} |")
rows.append("<!-- /seeded -->")
s=open("/verif/DESIGN.md").read(); t="\n".join(rows)
s=s.replace("@@TABLE@@",t) if "@@TABLE@@" in s else re.sub(r"<!-- seeded -->.*<!-- /seeded -->",lambda m:t,s,flags=re.S)
open("/verif/DESIGN.md","w").write(s)
