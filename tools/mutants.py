#!/usr/bin/env python3
"""tools/mutants.py [NAME...]: small changes that break a property, tried in
scratch copies of /repo; prints which of the property's check (and, with ALL=1,
of the other swarm checks) see them."""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.abspath(__file__))
S, P = "p2p/server.go", "p2p/peer.go"
M = []
def m(name, prop, *edits):
    M.append((name, prop, edits))
exec(open(os.path.join(here, "mutantlist.py")).read())


def one(x):
    name, prop, edits = x
    d = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    try:
        subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
        for f, old, new in edits:
            p = d + "/repo/" + f
            s = open(p).read()
            if s.count(old) != 1:
                return name, prop, "BAD EDIT %d x %r" % (s.count(old), old[:60])
            open(p, "w").write(s.replace(old, new))
        open(d + "/go.work", "w").write("go 1.25\nuse (\n\t/verif/harness\n\t%s/repo\n\t%s/repo/bencode\n)\n" % (d, d))
        shutil.copy("/verif/harness/go.work.sum", d)
        env = dict(os.environ, DRIPVERIF_GOWORK=d + "/go.work", PYTHONDONTWRITEBYTECODE="1", HOME="/root", DRIPVERIF_OUT=d)
        res = []
        for c in ([prop] if not os.environ.get("ALL") else sorted({prop} | {"C%d" % i for i in list(range(11, 22)) + [32]})):
            r = subprocess.run(["python3", "/verif/bin/check.py", c, os.environ.get("TIER", "quick")], capture_output=True, text=True, env=env)
            why = [l.strip() for l in r.stdout.split("\n") if l.startswith("  ") or l.startswith("ERROR")]
            res.append("%s:%d %s" % (c, r.returncode, why[0][:int(os.environ.get("W", "160"))] if why else ""))
        return name, prop, " | ".join(res)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    todo = [x for x in M if not sys.argv[1:] or any(a in x[0] for a in sys.argv[1:])]
    with ThreadPoolExecutor(int(os.environ.get("J", "3"))) as ex:
        for r in ex.map(one, todo):
            print(*r, flush=True)
