#!/usr/bin/env python3
# builds MANIFEST.json from the tables below
import json,os,sys
sys.path.insert(0,os.path.dirname(__file__))
props=[json.loads(l) for l in open("/verif/properties.jsonl")]
TECH="contract-based deductive verification of the real Go source: SSA of /repo's working tree, contracts on each function, verification conditions discharged by z3 and cvc5"
import claims
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in claims.CLAIMED:
        note=claims.CLAIMED[i]
        checks.append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough","technique":claims.TECHNIQUE.get(i,TECH),"level":claims.LEVEL.get(i,"proof"),"level_note":note})
    else:
        na.append({"property":i,"reason":claims.NA.get(i,"check not built yet")})
m={"version":1,"setup_cmd":"./check.sh setup","checks":checks,"not_applicable":na}
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1)
print(len(checks),"checks",len(na),"not applicable")
