#!/usr/bin/env python3
"""tools/automut.py FILE N [SEED]: N random syntactic changes of a source file of
/repo that compile and pass the existing tests; prints which checks see them.
Env: J parallel, CHECKS (comma-separated), FROM/TO line range."""
import json, os, random, shutil, subprocess, sys, tempfile, threading
from concurrent.futures import ThreadPoolExecutor
FILE, N = sys.argv[1], int(sys.argv[2])
SEED = int(sys.argv[3]) if len(sys.argv) > 3 else 1
CHECKS = {
    "storage": "C05 C01 C06 C03 C02 C07 C04 C08".split(), "p2p/multitracker.go": "C22 C23".split(),
    "p2p": ["SWARM"], "pex": "C24 C25".split(), "bencode/decode": "C28 C27 C29 C26".split(), "bencode/encode": "C27 C29 C25".split(),
    "bencode": "C27 C28".split(),
    "api/tracker": "C26 C25".split(), "api/metainfo": "C29 C07".split(), "api/peer": "C09 C10".split(), "api/magnet": ["C33"],
    "bitfield": ["C30"], "future": ["C31"],
}
checks = os.environ.get("CHECKS", "").split(",") if os.environ.get("CHECKS") else next(v for k, v in CHECKS.items() if FILE.startswith(k))
subprocess.run("cd /verif/tools/mutgen && GOWORK=off go build -o /tmp/mutgen .", shell=True, check=True)
src = open("/repo/" + FILE, "rb").read()
muts = [json.loads(l) for l in subprocess.run(["/tmp/mutgen", "/repo/" + FILE], capture_output=True, text=True, check=True).stdout.splitlines()]
lo, hi = int(os.environ.get("FROM", "0")), int(os.environ.get("TO", "100000"))
muts = [m for m in muts if lo <= m["line"] <= hi]
random.Random(SEED).shuffle(muts)
stable = set(json.dumps(x) for x in [])
BASE = json.load(open("/opt/vp/BASELINE.json"))
lock = threading.Lock()
state = dict(kept=0, caught=0, tried=0)


def passes(d):
    r = subprocess.run("sed -e 's#/repo#%s/repo#g' -e 's#^. /opt/vp/env.sh#. /opt/vp/env.sh; export GOWORK='%s'/t.work#' /opt/vp/test.sh > %s/test.sh; bash %s/test.sh %s/out.json" % (d, d, d, d, d), shell=True, capture_output=True, text=True, timeout=400,
                       env={k: v for k, v in os.environ.items() if k != "GOWORK"})
    try:
        o = json.load(open(d + "/out.json"))
    except Exception:
        return False
    ok = set(map(str, o.get("passed", o.get("pass", []))))
    want = BASE.get("stable", BASE.get("passed", BASE.get("tests", [])))
    return all(str(t) in ok for t in want)


def one(m):
    with lock:
        if state["kept"] >= N:
            return
        state["tried"] += 1
    d = tempfile.mkdtemp(prefix="amut-", dir="/tmp")
    try:
        subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
        new = src[:m["off"]] + m["new"].encode() + src[m["end"]:]
        if m["new"] == "_ = 0" and m["op"].startswith(("del-ret", "del-br", "del-cont", "empty")):
            pass
        open(d + "/repo/" + FILE, "wb").write(new)
        env = dict(os.environ, GOFLAGS="", GOWORK=d + "/t.work", GOTOOLCHAIN="local", GOPROXY="off", HOME="/root")
        open(d + "/t.work", "w").write("go 1.25\nuse (\n\t%s/repo\n\t%s/repo/bencode\n)\n" % (d, d))
        if os.path.exists("/opt/vp/work/go.work.sum"):
            shutil.copy("/opt/vp/work/go.work.sum", d + "/t.work.sum")
        sub = "bencode" if FILE.startswith("bencode") else "."
        if subprocess.run("cd %s/repo/%s && go build ./... " % (d, sub), shell=True, capture_output=True, env=env).returncode:
            return
        if not FILE.startswith("p2p") and not passes(d):
            return
        with lock:
            if state["kept"] >= N:
                return
            state["kept"] += 1
        open(d + "/go.work", "w").write("go 1.25\nuse (\n\t/verif/harness\n\t%s/repo\n\t%s/repo/bencode\n)\n" % (d, d))
        shutil.copy("/verif/harness/go.work.sum", d)
        env = dict(os.environ, DRIPVERIF_GOWORK=d + "/go.work", PYTHONDONTWRITEBYTECODE="1", VERIF_DEV="1", HOME="/root", DRIPVERIF_OUT=d)
        res = "MISSED"
        for c in checks:
            try:
                r = subprocess.run(["python3", "/verif/bin/check.py", c, "quick"], capture_output=True, text=True, env=env, timeout=1500)
            except subprocess.TimeoutExpired:
                res = "TIMEOUT " + c
                break
            if r.returncode:
                why = [l.strip() for l in r.stdout.split("\n") if l.startswith("  ") or l.startswith("ERROR")]
                res = "%s:%d %s" % (c, r.returncode, why[0][:110] if why else "")
                break
        with lock:
            state["caught"] += res != "MISSED"
            print("%s:%d %s | %s -> %s | %s" % (FILE, m["line"], m["op"], m["old"].replace("\n", " ")[:70], m["new"][:70].replace("\n", " "), res), flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)


with ThreadPoolExecutor(int(os.environ.get("J", "3"))) as ex:
    list(ex.map(one, muts))
print(state)
