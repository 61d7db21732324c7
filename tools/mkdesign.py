#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.md, the planted bugs and the table of claims."""
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(V+'/tools/claims.py').read())
s=open(V+'/tools/design.md').read()
rows=[]
for d in sorted(os.listdir(V+'/seeded')):
    m=json.load(open(V+'/seeded/'+d+'/meta.json'))
    rows.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['property'] if m.get('caught',True) else 'not caught: '+m.get('why_not','')} |")
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
na=[f"- **{p['id']}** {p['title']}: {NOT_APPLICABLE[p['id']]}" for p in props if p['id'] not in CLAIMS]
s=s.replace('@@SEEDS@@','\n'.join(rows)).replace('@@NA@@','\n'.join(na))
open(V+'/DESIGN.md','w').write(s)
