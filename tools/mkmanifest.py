#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/props.json and properties.jsonl."""
import json
V="/verif"
conf=json.load(open(V+"/tools/props.json"))
props=[json.loads(l)["id"] for l in open(V+"/properties.jsonl")]
TECH="deductive verification: contracts on the functions of /repo, conditions generated from their go/ssa on every run and discharged by z3/cvc5; failed obligations replayed on the real code"
m={"version":1,
 "setup_cmd":"cd gowp && GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOSUMDB=off CGO_ENABLED=0 go build -o /dev/null .",
 "checks":[],"not_applicable":[],
 "notes":"No hooks in /repo: contracts are overlaid files (contracts/), harnesses go in through go test -overlay (replay/)."}
for p in props:
    c=conf.get(p)
    if not c or c.get("na"):
        m["not_applicable"].append({"property":p,"reason":(c or {}).get("na","no check yet (work in progress)")})
        continue
    m["checks"].append({"property":p,"quick_cmd":"python3 tools/check.py %s quick"%p,"thorough_cmd":"python3 tools/check.py %s thorough"%p,
      "evidence_file":"evidence/%s.json"%p,"technique":c.get("technique",TECH),"level":c.get("level","proof"),
      "level_note":c.get("note","")})
json.dump(m,open(V+"/MANIFEST.json","w"),indent=1)
open(V+"/MANIFEST.json","a").write("\n")
