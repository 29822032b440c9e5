#!/usr/bin/env python3
"""tools/try.py PATCH CHECK...: run checks against a scratch copy of /repo with a
patch (a diff file, or 'sed:EXPR:FILE') applied."""
import os, shutil, subprocess, sys, tempfile
p, checks = sys.argv[1], sys.argv[2:]
d = tempfile.mkdtemp(prefix="try-", dir="/tmp")
try:
    subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
    if p.startswith("sed:"):
        e, f = p[4:].rsplit(":", 1)
        subprocess.run(["sed", "-i", e, d + "/repo/" + f], check=True)
    else:
        subprocess.run(["git", "apply", os.path.abspath(p)], cwd=d + "/repo", check=True)
    print(subprocess.run(["git", "diff", "--stat"], cwd=d + "/repo", capture_output=True, text=True).stdout)
    open(d + "/go.work", "w").write("go 1.25\nuse (\n\t/verif/harness\n\t%s/repo\n\t%s/repo/bencode\n)\n" % (d, d))
    shutil.copy("/verif/harness/go.work.sum", d)
    env = dict(os.environ, DRIPVERIF_GOWORK=d + "/go.work", PYTHONDONTWRITEBYTECODE="1", VERIF_DEV="1", DRIPVERIF_OUT=d)
    for c in checks:
        r = subprocess.run(["python3", "/verif/bin/check.py", c, os.environ.get("VERIF_TIER", "quick")], capture_output=True, text=True, env=env)
        out = r.stdout + r.stderr
        print("%s -> %d" % (c, r.returncode)); print(out[:int(os.environ.get("CHARS", "2500"))])
finally:
    shutil.rmtree(d, ignore_errors=True)
