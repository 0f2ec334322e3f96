#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table of claimed checks below and properties.jsonl."""
import json, os
here=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
props=[json.loads(l) for l in open(os.path.join(here,'properties.jsonl'))]
SEQ='bounded exhaustive enumeration of operation sequences on the real code against a reference model'
INP='bounded exhaustive enumeration of inputs and programs on the real code against a reference model'
C={}   # id: (technique, level, note, builds)
exec(open(os.path.join(here,'tools','claims.py')).read())
checks=[]
for p in props:
    if p['id'] not in C: continue
    t,l,n,b=C[p['id']]
    cmd='bin/check.sh %s%s'%(p['id'],(' '+b) if b else '')
    checks.append(dict(property=p['id'],quick_cmd=cmd,thorough_cmd=cmd,technique=t,level=l,level_note=n))
m=dict(version=1,setup_cmd='bin/build.sh core'+SETUP,hooks=dict(guard='none',enable='no hook: the checks build /repo as it is',source_commits=[]),
  checks=checks,not_applicable=[dict(property=p['id'],reason=NA.get(p['id'],'no check built yet')) for p in props if p['id'] not in C])
json.dump(m,open(os.path.join(here,'MANIFEST.json'),'w'),indent=1,ensure_ascii=False)
print(len(checks),'claimed,',len(m['not_applicable']),'not')
