#!/usr/bin/env python3
"""Generates MANIFEST.json from the table below (run: python3 tools/manifest.py)."""
import json,os
HERE=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
ids=[json.loads(l)['id'] for l in open(os.path.join(HERE,'properties.jsonl'))]
T={}
def t(i,tech,note): T[i]=(tech,note)
exec(open(os.path.join(HERE,'tools','manifest_table.py')).read())
checks=[];na=[]
for i in ids:
    if i in T:
        tech,note=T[i]
        checks.append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough",
          "technique":tech,"level":"model_checking","level_note":note})
    else:
        na.append({"property":i,"reason":NA.get(i,"check under construction")})
json.dump({"version":1,"setup_cmd":"tools/build.sh && tools/build_lite.sh","checks":checks,"not_applicable":na,
 "notes":"All checks are subcommands of one Rust binary (mc/) that is rebuilt from /repo's working tree; no hooks are compiled into /repo."},
 open(os.path.join(HERE,'MANIFEST.json'),'w'),indent=1)
print(len(checks),"checks,",len(na),"not claimed")
