#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below; a property without a check goes under not_applicable."""
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l)['id'] for l in open(V+'/properties.jsonl')]
exec(open(V+'/tools/claims.py').read())
checks=[];na=[]
for p in props:
    if p in CLAIMS:
        t,n=CLAIMS[p]
        checks.append({"property":p,"quick_cmd":f"./check.sh {p} quick","thorough_cmd":f"./check.sh {p} thorough","technique":t,"level":"other","level_note":n})
    else:
        na.append({"property":p,"reason":NOT_APPLICABLE[p]})
m={"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":na,
"notes":"No hooks in /repo: every check reads the current source of /repo through go/packages and go/ssa (analyzer/). known_findings.txt lists the repaired defects."}
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1)
open(V+'/MANIFEST.json','a').write('\n')
print(len(checks),'checks',len(na),'not applicable')
