#!/usr/bin/env python3
"""Writes MANIFEST.json: every checks/PXX.py is claimed, the rest are listed as not applicable with the reason below."""
import json, os, glob
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
props=[json.loads(l) for l in open(V+"/properties.jsonl")]
have={os.path.basename(f)[:-3] for f in glob.glob(V+"/checks/P??.py")}
NOTE={}
exec(open(V+"/tools/notes.py").read())
checks=[]; na=[]
for p in props:
    i=p["id"]
    if i in have:
        t,n=NOTE.get(i,(TECH,GEN)); checks.append({"property":i,"quick_cmd":"python3 check.py "+i,"thorough_cmd":"VERIF_TIER=thorough python3 check.py "+i,"technique":t,"level":"other","level_note":n})
    else: na.append({"property":i,"reason":NA.get(i,"no sound solver-based check built yet")})
json.dump({"version":1,"setup_cmd":"python3 tools/setup.py","checks":checks,"not_applicable":na,"notes":"see DESIGN.md; known findings and fixes in known_findings.json"},open(V+"/MANIFEST.json","w"),indent=1)
print(len(checks),"claimed;",[x["property"] for x in na])
