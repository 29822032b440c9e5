"""tools/swtest.py PROFILE RUNS: record client executions and check them against every rule."""
import collections, json, os, sys, time
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, "..", "bin"))
import lib
ctx = lib.Ctx("Cxx", "quick", int(os.environ.get("VERIF_SEED", "1")))
prof, runs = sys.argv[1], int(sys.argv[2])
RULES = set("whole hs first bf unique cap have int nint toggle reqhas verified requnch exact once single reqint rare up upchoked done upcount downcount badclosed rxcx corrupt admit haveall mustint upmust unchoke progress mustnint complete dial interval stopclose stopret stopann ownhs just dialed blocked dialonce ann event running pub".split())
if len(sys.argv) > 3:
    RULES = set(sys.argv[3].split(","))
tr = ctx.path("tr")
t = time.time()
r = ctx.drv("swarm", dict(runs=runs, profile=prof, **(dict(bubbles=0, real=True) if prof in ("stall", "stopreal") else dict(bubbles=8))), traces=tr, test=True, flags=("-tags", "verif"))
print(r.get("stats"), str(ctx.violations[:2])[:1500], round(time.time() - t, 1))
t = time.time()
lines = open(tr).read().strip().split("\n")
bad = ctx._rejected("SwarmTrace", lines, dict(Rules=RULES), 900, 8, view="View")
print(len(lines), "traces", len(bad), "rejected", round(time.time() - t, 1))
cnt = collections.Counter()

for i in bad[:12]:
    n = len(ctx.jobs)
    far = ctx._progress("SwarmTrace", lines[i], dict(Rules=RULES), 600, view="View")
    pf = ctx.path("prog%d.rules" % n)
    rules = open(pf).read().split("\n")[0] if os.path.exists(pf) else "?"
    ev = json.loads(lines[i])["ev"]
    cnt[rules] += 1
    print(i, far, rules, json.dumps(ev[far - 1]))
    json.dump(json.loads(lines[i]), open("/tmp/bad%s-%d.json" % (os.environ.get("VERIF_SEED","1"), i), "w"))
print(cnt)
ctx.close()
