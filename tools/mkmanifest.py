#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry of checks."""
import json, os, sys
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, "..", "bin"))
import check
from notes import NOTES

WALK = "TLC state graph walked through the real code"
props = [json.loads(l) for l in open(os.path.join(here, "..", "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in check.REG:
        tech, note = NOTES[i]
        checks.append(dict(property=i, quick_cmd="python3 bin/check.py %s quick" % i, thorough_cmd="python3 bin/check.py %s thorough" % i,
                           technique=tech, level="model_checking", level_note=note))
    else:
        na.append(dict(property=i, reason="not claimed yet: its check is still being built"))
m = dict(version=1, setup_cmd="bash bin/setup.sh", checks=checks, not_applicable=na,
         notes="TLA+ specifications (spec/) checked with TLC and bound to the code by graph walks and trace validation; see DESIGN.md. "
               "The swarm checks build the client with the verif tag, which lets a harness replace its network; the other checks use only its exported API, its sockets and its files.",
         hooks=dict(guard="verif build tag (//go:build verif in p2p/net_verif.go, !verif in p2p/net.go)", enable="go build -tags verif (go test -c -tags verif)",
                    source_commits=["2398423d2a8037a80aaac77f66387b68d83b2883"]))
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "..", "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not claimed")
