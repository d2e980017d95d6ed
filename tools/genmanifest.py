#!/usr/bin/env python3
# Regenerates /verif/MANIFEST.json from properties.jsonl and the properties the harness implements.
import json,re,os
here=os.path.dirname(os.path.abspath(__file__))
props=[json.loads(l) for l in open(here+'/../properties.jsonl')]
mods=open(here+'/../harness/src/props/mod.rs').read()
have=set(re.findall(r'\("(C\d\d)", c',mods))
tech=json.load(open(here+'/techniques.json'))
checks=[];na=[]
for p in props:
    i=p['id']
    if i in have:
        t=tech.get(i,{})
        checks.append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough","evidence_file":f"evidence/{i}.json",
          "technique":t.get("technique","property-based testing: generated inputs against an independent reference implementation"),
          "level":"exploration",
          "level_note":t.get("note","Generated-input search with a fixed number of cases per run; finds violations, does not prove absence. Trusts the reference named in the evidence file.")})
    else:
        na.append({"property":i,"reason":"check not built yet"})
m={"version":1,"setup_cmd":"./check.sh build","checks":checks,"not_applicable":na,
 "notes":"All checks are one harness crate (harness/), built from /repo's working tree by check.sh; see DESIGN.md. No hooks in /repo are needed: random-source control works by interposing the C library's getrandom in the harness process. Replay a recorded failure with ./check.sh replay FILE."}
json.dump(m,open(here+'/../MANIFEST.json','w'),indent=1); open(here+'/../MANIFEST.json','a').write("\n")
print(len(checks),"claimed;",len(na),"not")
