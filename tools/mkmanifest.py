#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py (claimed properties) and properties.jsonl."""
import json, os, sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,V)
from checks import CHECKS
props=[json.loads(l) for l in open(V+"/properties.jsonl")]
NA={}
checks=[]; na=[]
for p in props:
    i=p["id"]
    if i in CHECKS:
        c=CHECKS[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py "+i, thorough_cmd="VERIF_TIER=thorough python3 check.py "+i, evidence_file="evidence/%s.json"%i,
          technique=c.get("technique","property-based testing: generated histories/inputs against a reference model, with shrinking"),
          level="exploration", level_note=c.get("note","Searches generated cases only; trusts the oracle in /verif/harness and the compiler. Case counts and the non-triviality rule are in the evidence file.")))
    else: na.append(dict(property=i, reason=NA.get(i,"No check built yet.")))
json.dump(dict(version=1,setup_cmd="python3 check.py --build-all",checks=checks,not_applicable=na,
  notes="No hooks were needed in /repo: harnesses in /verif link /repo's sources directly. Checks are deterministic in VERIF_SEED."),open(V+"/MANIFEST.json","w"),indent=1)
