#!/usr/bin/env python3
"""tools/prof.py PROFILE RUNS [SEED]: runs of the client of one profile, judged by all rules."""
import os, sys, time, json
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "bin"))
import lib
import props_swarm as ps
ps.HEAVY = {}
ctx = lib.Ctx("PROF", "quick", int(sys.argv[3]) if len(sys.argv) > 3 else 1)
t = time.time()
try:
    if sys.argv[1] == "network":
        ps.network(ctx, int(sys.argv[2]), " ".join(ps.RULES), "keep origin bytes everybody published")
    else:
        ps.swarm(ctx, sys.argv[1], int(sys.argv[2]), ps.RULES)
    print("%.1f s" % (time.time() - t), [(j["job"], j["wall_s"]) for j in ctx.jobs], {k: v for k, v in ctx.cov.items() if k != "samples"})
    print(json.dumps([j.get("stats") for j in ctx.jobs if j.get("stats")])[:1500])
    for w, d in ctx.violations[:4]:
        print("VIOL", w[:700])
        if os.environ.get("SAVE"):
            json.dump(d, open(os.environ["SAVE"], "w"))
finally:
    ctx.close()
