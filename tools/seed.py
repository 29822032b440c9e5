#!/usr/bin/env python3
"""Plant bugs: tools/seed.py ID SPECFILE; check them: tools/seed.py --check [ID...]
SPECFILE is a Python file defining property, needs, breaks, edits = [(file, old, new)],
pkg (package directory the demo test goes into), demo (Go source of demo_test.go).
Confirms in a scratch copy that it builds, passes the stable tests, and that the
demonstration passes without and fails with the change; then writes seeded/ID and
runs the property's check against the changed copy."""
import json, os, subprocess, sys, tempfile, shutil
here = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(here, "..", "seeded")
DEMO = '''#!/bin/bash
# Run in /repo; exit 0 if the property holds.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
[ -n "$DEMO_GOWORK" ] && export GOWORK=$DEMO_GOWORK
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
export TMPDIR=$t
echo "{\\"Replace\\":{\\"$PWD/%(pkg)s/zz_demo_test.go\\":\\"$here/demo_test.go\\"}}" > "$t/overlay.json"
go test -overlay "$t/overlay.json" -vet=off -count=1 -timeout 200s %(flags)s -run '^TestDemo$' ./%(pkg)s
'''
run = lambda *a, **k: subprocess.run(a, capture_output=True, text=True, errors="replace", **k)


def workspace(d):
    run("cp", "-a", "/repo", d + "/repo")
    run("git", "-C", d + "/repo", "checkout", "--", ".")
    open(d + "/t.work", "w").write("go 1.25\nuse (\n\t%s/repo\n\t%s/repo/bencode\n)\n" % (d, d))
    shutil.copy("/opt/vp/work/go.work.sum", d + "/t.work.sum")
    open(d + "/go.work", "w").write("go 1.25\nuse (\n\t/verif/harness\n\t%s/repo\n\t%s/repo/bencode\n)\n" % (d, d))
    shutil.copy("/verif/harness/go.work.sum", d)


def demo(sid, d):
    return run("bash", os.path.join(SEEDED, sid, "demo.sh"), cwd=d + "/repo", env=dict(os.environ, DEMO_GOWORK=d + "/t.work"))


def check(prop, d):
    env = dict(os.environ, DRIPVERIF_GOWORK=d + "/go.work", PYTHONDONTWRITEBYTECODE="1", HOME="/root", DRIPVERIF_OUT=d)
    r = run("python3", "/verif/bin/check.py", prop, "quick", env=env)
    why = [l.strip() for l in r.stdout.split("\n") if l.startswith("  ") or l.startswith("ERROR")]
    return "%s exit %d %s" % (prop, r.returncode, why[0][:200] if why else "")


def plant(sid, spec):
    g = {}
    exec(open(spec).read(), g)
    out = os.path.join(SEEDED, sid)
    os.makedirs(out, exist_ok=True)
    open(os.path.join(out, "demo.sh"), "w").write(DEMO % dict(pkg=g["pkg"], flags=g.get("flags", "")))
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    open(os.path.join(out, "demo_test.go"), "w").write(g["demo"].lstrip())
    json.dump({"property": g["property"], "needs": g["needs"], "what_it_breaks": g["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
    d = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    ok = True
    try:
        workspace(d)
        for _ in range(g.get("repeat", 2)):
            x = demo(sid, d)
            if x.returncode:
                ok = False
                print("demo without:", x.returncode, (x.stdout + x.stderr)[-1500:])
                break
        for f, old, new in g["edits"]:
            p = d + "/repo/" + f
            s = open(p).read()
            assert s.count(old) == 1, (f, old, s.count(old))
            open(p, "w").write(s.replace(old, new))
        diff = run("git", "-C", d + "/repo", "diff").stdout
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        # lines of the original repository must be changed
        for f in {e[0] for e in g["edits"]}:
            orig = run("git", "-C", "/repo", "show", "8b6aa20:" + f).stdout.split("\n")
            gone = [l[1:] for l in diff.split("\n") if l.startswith("-") and not l.startswith("---")]
            print(f, "original lines removed:", sum(l in orig and l.strip() != "" for l in gone), "of", len(gone))
        for m in (".", "bencode"):
            b = run("go", "build", "./...", cwd=d + "/repo/" + m, env=dict(os.environ, GOWORK=d + "/t.work"))
            assert b.returncode == 0, b.stderr
        subprocess.run("sed -e 's#/repo#%s/repo#g' -e 's#^. /opt/vp/env.sh#. /opt/vp/env.sh; export GOWORK='%s'/t.work#' /opt/vp/test.sh > %s/test.sh" % (d, d, d), shell=True, check=True)
        run("bash", d + "/test.sh", d + "/out.json")
        missing = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(json.load(open(d + "/out.json"))["passed"])
        x = demo(sid, d)
        print("demo with the change:", x.returncode, (x.stdout + x.stderr)[-400:])
        if missing:
            print("stable tests broken:", sorted(missing)[:5])
        if not ok or missing or x.returncode == 0:
            print("NOT CONFIRMED", sid)
            if "--keep" not in sys.argv:
                shutil.rmtree(out)
            return
        print("confirmed", sid, "|", check(g["property"], d))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def recheck(sid):
    d = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    try:
        workspace(d)
        r = run("git", "apply", os.path.abspath(os.path.join(SEEDED, sid, "patch.diff")), cwd=d + "/repo")
        if r.returncode:
            return sid + " does not apply"
        return sid + " " + check(json.load(open(os.path.join(SEEDED, sid, "meta.json")))["property"], d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if sys.argv[1] == "--check":
    for sid in sys.argv[2:] or sorted(os.listdir(SEEDED)):
        print(recheck(sid), flush=True)
else:
    plant(sys.argv[1], sys.argv[2])
