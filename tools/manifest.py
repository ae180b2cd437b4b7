#!/usr/bin/env python3
"""Writes MANIFEST.json from the rules the checker registers."""
import json,subprocess,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ls=subprocess.check_output([here+'/bin/checker','-list'],text=True).splitlines()
n={}
for l in ls:
    i,j=l.index('['),l.index(']')
    for p in l[i+1:j].split(): n.setdefault(p,[]).append(l[:i].strip())
titles={}
for l in open(here+'/properties.jsonl'):
    d=json.loads(l); titles[d['id']]=d['title']
tech=json.load(open(here+'/tools/technique.json'))
checks=[];na=[]
for p in titles:
    if p in n:
        checks.append({"property":p,"quick_cmd":f"bash check.sh {p}","thorough_cmd":f"bash check.sh {p}",
          "technique":tech.get(p,{}).get("technique","path-sensitive dataflow and scenario-table rules over go/ssa"),
          "level":"other",
          "level_note":tech.get(p,{}).get("note","Decides the structural clauses listed in the evidence file, each a necessary condition of the property, on every path of the anchored functions; it doesn't decide the full behaviour (DESIGN.md says what is left). Trusts go/ssa and the stand-ins for unavailable modules.")})
    else: na.append({"property":p,"reason":"no rule built yet"})
json.dump({"version":1,"setup_cmd":"bash setup.sh","checks":checks,"not_applicable":na,
 "notes":"Static analysis only: no /repo code is executed, no hooks. Commits in /repo are 'fix:' commits, listed in known_findings.txt."},open(here+'/MANIFEST.json','w'),indent=1)
print(len(checks),'checks',{p:len(v) for p,v in sorted(n.items())})
