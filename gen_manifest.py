#!/usr/bin/env python3
# Writes MANIFEST.json from checks.json (technique and notes per property).
import json
d=json.load(open('checks.json'))
m={"version":1,"setup_cmd":"./run.sh --setup","checks":[],"not_applicable":[],"notes":d["notes"]}
props=[json.loads(l) for l in open('properties.jsonl')]
for p in props:
    i=p["id"]
    if i in d["checks"]:
        c=d["checks"][i]
        m["checks"].append({"property":i,"quick_cmd":"./run.sh %s quick"%i,"thorough_cmd":"./run.sh %s thorough"%i,
          "technique":c["technique"],"level":"other","level_note":c["note"]})
    else:
        m["not_applicable"].append({"property":i,"reason":d["not_applicable"].get(i,"no check built yet")})
json.dump(m,open('MANIFEST.json','w'),indent=1); open('MANIFEST.json','a').write("\n")
