#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json
TECH="path-sensitive guarded-effect dataflow over SSA (value numbering, loop widening; no solver, no execution)"
NOTE=("Holds for every path of the analysed functions under the stated library model: standard library calls are summarised by a table, "
 "paths are enumerated exactly with loops widened to a fixpoint, anything not understood is reported. Trusted: the table, go/ssa, the rule's reading of the property.")
ROWS=json.load(open('lint/claims.json'))
NA=json.load(open('lint/not_applicable.json'))
props=[json.loads(l) for l in open('properties.jsonl')]
checks=[];na=[]
for p in props:
    i=p['id']
    if i in NA: na.append({"property":i,"reason":NA[i]}); continue
    r=ROWS.get(i,{})
    checks.append({"property":i,"quick_cmd":f"./check.sh {i}","thorough_cmd":f"VERIF_TIER=thorough ./check.sh {i}",
      "evidence_file":f"evidence/{i}.json","technique":r.get("technique",TECH),"level":"other","level_note":(r.get("note","")+" "+NOTE).strip()})
m={"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":na,
 "notes":"One analyser in lint/ decides all properties from /repo's current source; no hooks are needed in /repo. Repairs are listed in known_findings.txt."}
open('MANIFEST.json','w').write(json.dumps(m,indent=1)+"\n")
