#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/specs.py and properties.jsonl."""
import json,os,sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,V+"/lib")
from specs import SPECS, NOT_APPLICABLE
props=[json.loads(l) for l in open(V+"/properties.jsonl")]
m=dict(version=1,setup_cmd="bash tools/setup.sh",hooks=dict(guard="none",enable="no hooks in /repo: the checks link the unmodified libraries and interpose libc/pthread symbols from the harness executable",source_commits=[]),checks=[],not_applicable=[])
for p in props:
    i=p["id"]
    if i in SPECS:
        s=SPECS[i]
        m["checks"].append(dict(property=i,quick_cmd="python3 lib/run.py %s quick"%i,thorough_cmd="python3 lib/run.py %s thorough"%i,
            technique=s.get("technique","bounded exhaustive exploration of operation sequences on the real code against a reference model (stateless model checking)"),
            level="model_checking",level_note=s.get("level_note","Every behaviour within the stated bounds is executed on the real code and compared with an independent reference model; nothing is claimed beyond the bounds. "+s["rule"])))
    else: m["not_applicable"].append(dict(property=i,reason=NOT_APPLICABLE.get(i,"not built yet")))
json.dump(m,open(V+"/MANIFEST.json","w"),indent=1)
print(len(m["checks"]),"checks;",[x["property"] for x in m["not_applicable"]])
