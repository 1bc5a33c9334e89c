#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of built checks."""
import json, re, sys
sys.argv=[''];
src=open('/verif/check.py').read()
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
DONE=sys.stdin.read().split() if not sys.stdin.isatty() else [p['id'] for p in props]
TECH=json.load(open('/verif/techniques.json'))
m={"version":1,"setup_cmd":"python3 /verif/check.py --build","checks":[],"not_applicable":[]}
for p in props:
    i=p['id']
    if i in DONE:
        m["checks"].append({"property":i,"level":"model_checking","technique":TECH[i][0],"level_note":TECH[i][1],"quick_cmd":f"python3 /verif/check.py {i} quick","thorough_cmd":f"python3 /verif/check.py {i} thorough"})
    else:
        m["not_applicable"].append({"property":i,"reason":"check not built yet"})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
