#!/usr/bin/env python3
"""addfix.py PROP COMMIT WHAT: records a repaired defect"""
import sys,json
p,c,w=sys.argv[1:4]
open("/verif/known_findings.jsonl","a").write(json.dumps(dict(property=p,status="fixed",commit=c,what=w,line="fixed: property=%s %s %s"%(p,c,w)))+"\n")
