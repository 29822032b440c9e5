"""Machinery shared by all checks: building the driver, running TLC, trace
validation, reporting.  Only the Python standard library is used."""
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
OUT = os.environ.get("DRIPVERIF_OUT") or os.path.join(VERIF, "out")
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.txt")


class Error(Exception):
    """The check itself failed (never a violation)."""


def tla_value(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, str):
        return '"' + v.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n") + '"'
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(tla_value(x) for x in sorted(v, key=repr)) + "}"
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla_value(x) for x in v) + ">>"
    if isinstance(v, dict):
        return "[" + ", ".join("%s |-> %s" % (k, tla_value(x)) for k, x in v.items()) + "]"
    return str(v)


def scratch_root():
    """Memory-backed if possible: the drivers make very many small files."""
    d = "/dev/shm"
    try:
        fd, p = tempfile.mkstemp(dir=d)
        os.write(fd, b"#!/bin/sh\nexit 0\n")
        os.close(fd)
        os.chmod(p, 0o755)
        ok = subprocess.run([p]).returncode == 0 and shutil.disk_usage(d).free > 1 << 30
        os.remove(p)
        return d if ok else None
    except OSError:
        return None


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.scratch = tempfile.mkdtemp(prefix="dripverif-%s-" % pid, dir=scratch_root())
        os.chmod(self.scratch, 0o755)
        self.violations, self.samples = [], []
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0}
        self.jobs = []
        self.assumptions = []
        self.exhaustive = None
        self.built = {}

    quick = property(lambda self: self.tier == "quick")

    def path(self, *p):
        return os.path.join(self.scratch, *p)

    def env(self, extra=None):
        e = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="", GOWORK=os.environ.get("DRIPVERIF_GOWORK") or os.path.join(HARNESS, "go.work"))
        e.setdefault("HOME", "/root")
        e["PATH"] = "/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", "")
        e.update(extra or {})
        return e

    # ---- building -------------------------------------------------------
    def build(self, pkg="./drv", test=False, flags=()):
        """Build a harness package against /repo's working tree."""
        key = (pkg, test, tuple(flags))
        if key in self.built:
            return self.built[key]
        out = self.path("bin%d" % len(self.built))
        cmd = ["go"] + (["test", "-c", "-vet=off"] if test else ["build"]) + list(flags) + ["-o", out, pkg]
        r = subprocess.run(cmd, cwd=HARNESS, env=self.env(), capture_output=True, text=True, timeout=600)
        if r.returncode != 0 or not os.path.exists(out):
            raise Error("build failed: %s\n%s" % (" ".join(cmd), r.stderr[-4000:]))
        self.built[key] = out
        return out

    # ---- TLC ------------------------------------------------------------
    def tlc(self, module, constants=None, init="Init", next="Next", spec=None, invariants=(), properties=(),
            constraint=None, action_constraint=None, view=None, symmetry=None, env=None, workers=4, heap="6g",
            timeout=600, overrides=None, deadlock=False, extra=(), ok_codes=(0,), count=True, name=None):
        """Run TLC on spec/<module>.tla; return (generated, distinct, output)."""
        n = len(self.jobs)
        d = self.path("tlc%d" % n)
        os.makedirs(d)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        cfg = []
        if constants or overrides:
            # Values that a cfg file cannot hold are defined in a wrapper module.
            with open(os.path.join(d, "MC.tla"), "w") as f:
                f.write("---- MODULE MC ----\nEXTENDS %s\n" % module)
                for k, v in (constants or {}).items():
                    f.write("mc_%s == %s\n" % (k, tla_value(v)))
                f.write("====\n")
            cfg.append("CONSTANTS")
            cfg += ["  %s <- mc_%s" % (k, k) for k in (constants or {})]
            cfg += ["  %s <- %s" % kv for kv in (overrides or {}).items()]
        root = "MC" if constants or overrides else module
        if spec:
            cfg.append("SPECIFICATION " + spec)
        else:
            cfg += ["INIT " + init, "NEXT " + next]
        if invariants:
            cfg.append("INVARIANTS " + " ".join(invariants))
        if properties:
            cfg.append("PROPERTIES " + " ".join(properties))
        for key, val in (("CONSTRAINT", constraint), ("ACTION_CONSTRAINT", action_constraint), ("VIEW", view),
                         ("SYMMETRY", symmetry)):
            if val:
                cfg.append("%s %s" % (key, val))
        cfg.append("CHECK_DEADLOCK " + ("TRUE" if deadlock else "FALSE"))
        with open(os.path.join(d, "run.cfg"), "w") as f:
            f.write("\n".join(cfg) + "\n")
        cmd = ["java", "-XX:+UseParallelGC", "-Xss16m", "-Xmx" + heap, "-cp", TLA, "tlc2.TLC", "-config", "run.cfg", "-metadir",
               os.path.join(d, "meta"), "-workers", str(workers), "-noGenerateSpecTE", *extra, root + ".tla"]
        t0 = time.time()
        try:
            r = subprocess.run(cmd, cwd=d, env=self.env(env), capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Error("TLC timed out on %s" % module)
        out = r.stdout + r.stderr
        if r.returncode not in ok_codes:
            raise Error("TLC failed on %s (%d):\n%s" % (module, r.returncode, out[-6000:]))
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        gen, dist = (int(m[1]), int(m[2])) if m else (0, 0)
        job = dict(job=name or module, generated=gen, distinct=dist, wall_s=round(time.time() - t0, 1))
        self.jobs.append(job)
        if count:
            self.cov["states"] += dist
            self.cov["transitions"] += gen
        shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
        return gen, dist, out

    # ---- driver ---------------------------------------------------------
    def drv(self, mode, params=None, fields=None, edges="", cases="", traces="", timeout=600, pkg="./drv",
            test=False, env=None, what=None, flags=()):
        binary = self.build(pkg, test, flags)
        n = len(self.jobs)
        cfg, out = self.path("drv%d.cfg" % n), self.path("drv%d.out" % n)
        conf = dict(seed=self.seed, tier=self.tier, fields=fields, edges=edges, cases=cases, traces=traces,
                    scratch=self.scratch, params=params or {})
        with open(cfg, "w") as f:
            json.dump(conf, f)
        t0 = time.time()
        env = dict({"TMPDIR": self.scratch, "GOTRACEBACK": "all"}, **(env or {}))
        if test:
            env.update(DRV_MODE=mode, DRV_CONFIG=cfg, DRV_OUT=out)
            cmd = [binary, "-test.timeout", "0", "-test.run", "^TestDrv$"]
        else:
            cmd = [binary, mode, cfg, out]
        errf = self.path("drv%d.err" % n)
        try:
            with open(errf, "wb") as ef:
                r = subprocess.run(cmd, cwd=self.scratch, env=self.env(env), stdout=ef, stderr=ef, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Error("driver timed out: %s" % mode)
        err = open(errf, "rb").read().decode("utf-8", "replace")
        job = dict(job="drv " + mode, wall_s=round(time.time() - t0, 1))
        self.jobs.append(job)
        if not os.path.exists(out):
            crash = drip_crash(err)
            if crash:
                self.violate("the process crashed in drip's code: " + crash, dict(mode=mode, params=params, stderr=err[:8000]))
                return dict(violations=[], stats={}, samples=[], crashed=True)
            raise Error("driver %s failed (%s):\n%s\n...\n%s" % (mode, r.returncode, err[:3000], err[-3000:]))
        res = json.load(open(out))
        job["stats"] = res.get("stats")
        if (res.get("stats") or {}).get("machinery_errors"):
            raise Error("driver %s: %s" % (mode, json.dumps(res["stats"])[:3000]))
        for v in res["violations"]:
            self.violate(v["what"], dict(mode=mode, params=params, config=conf, detail=v["detail"]))
        for s in res.get("samples") or []:
            if len(self.samples) < 6:
                self.samples.append(s)
        return res

    def walk(self, module, constants, mode, params=None, fields=None, invariants=(), timeout=600, workers=4, env=None, cover=0.97, **kw):
        """Explore a model exhaustively and walk the real code over every transition."""
        edges = self.path("edges%d" % len(self.jobs))
        for n in (workers, 1):
            gen, dist, _ = self.tlc(module, constants, invariants=invariants, env=dict({"EDGES": edges}, **(env or {})), workers=n, timeout=timeout, count=n == workers)
            # Workers write lines of over 8 KiB into each other.
            if n == 1 or dist < 2 or not os.path.exists(edges) or max(map(len, open(edges, "rb")), default=0) < 8000:
                break
            os.remove(edges)
        if not os.path.exists(edges):
            raise Error("no transitions from " + module)
        res = self.drv(mode, params, fields, edges=edges, timeout=timeout, **kw)
        st = res.get("stats") or {}
        self.cov["traces_validated_against_impl"] += st.get("resets", 0) + 1
        self.cov["impl_steps"] = self.cov.get("impl_steps", 0) + st.get("steps", 0)
        self.cov["pairs_covered"] = self.cov.get("pairs_covered", 0) + st.get("pairs_covered", 0)
        self.cov["pairs_left"] = self.cov.get("pairs_left", 0) + st.get("pairs_left", 0)
        os.remove(edges)
        if not self.violations and st.get("pairs_covered", 0) < cover * (st.get("pairs_covered", 0) + st.get("pairs_left", 0)):
            raise Error("the walk of %s covered only %s" % (module, st))
        return res

    def validate(self, module, traces, constants=None, timeout=600, workers=8, what="recorded history", **kw):
        """Trace validation: each line of the file must be accepted by the module."""
        lines = [l for l in open(traces).read().split("\n") if l.strip()]
        if not lines:
            raise Error("no traces for " + module)
        bad = self._rejected(module, lines, constants, timeout, workers, **kw)
        self.cov["traces_validated_against_impl"] += len(lines)
        for i in bad[:5]:
            ev = json.loads(lines[i])
            far = self._progress(module, lines[i], constants, timeout, **kw)
            at = ev["ev"][far - 1] if 0 < far <= len(ev["ev"]) else None
            self.violate("%s is not a behaviour of %s: no step explains event %d: %s" % (what, module, far, json.dumps(at)[:600]),
                         dict(trace=ev, stuck_at=far, event=at, constants=constants))
        return bad

    def _rejected(self, module, lines, constants, timeout, workers, **kw):
        n = len(self.jobs)
        tf, af = self.path("tr%d" % n), self.path("acc%d" % n)
        with open(tf, "w") as f:
            f.write("\n".join(lines) + "\n")
        open(af, "w").close()
        self.tlc(module, constants, constraint="Report", env={"TRACES": tf, "ACCEPT": af, "PROGRESS": ""}, timeout=timeout, workers=workers, **kw)
        acc = {int(l.strip().strip('"')) for l in open(af) if l.strip()}
        return [i for i in range(len(lines)) if i + 1 not in acc]

    def _progress(self, module, line, constants, timeout, **kw):
        n = len(self.jobs)
        tf, af, pf = self.path("tr%d" % n), self.path("acc%d" % n), self.path("prog%d" % n)
        with open(tf, "w") as f:
            f.write(line + "\n")
        open(af, "w").close()
        open(pf, "w").close()
        self.tlc(module, constants, constraint="Report", env={"TRACES": tf, "ACCEPT": af, "PROGRESS": pf}, timeout=timeout, count=False, workers=4, **kw)
        return max([int(l.strip().strip('"')) for l in open(pf) if l.strip()] or [0])

    # ---- reporting ------------------------------------------------------
    def violate(self, what, detail):
        self.violations.append((what, detail))

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


def drip_crash(err):
    """The message of a crash whose panicking goroutine runs drip's code."""
    m = re.search(r"^(panic: .*|fatal error: .*|unexpected fault address.*)$", err, re.M)
    if not m:
        return None
    rest = err[m.start():]
    g = re.search(r"^goroutine \d+ [^\n]*\n(.*?)(?:\n\n|\Z)", rest, re.M | re.S)
    frames = g[1] if g else rest
    # The topmost frame that is not the runtime's or the library's.
    f = re.search(r"^(github\.com/browles/drip|dripverif/|main\.)[^\n]*", frames, re.M)
    if f and not f[0].startswith("github.com/browles/drip"):
        return None  # the harness's own fault
    if f or "all goroutines are asleep" in m[1] or "concurrent map" in m[1]:
        return m[1][:300] + (" at " + f[0] if f else "")
    return None


def known_findings(pid):
    res = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m[1] == pid:
                res.append((m[2], m[3]))
    return res


def main(registry):
    if len(sys.argv) < 2 or sys.argv[1] not in registry:
        print("usage: check.py ID   (%s)" % " ".join(sorted(registry)))
        return 2
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    ctx = Ctx(pid, tier, seed)
    try:
        registry[pid](ctx)
    except Error as e:
        if not ctx.violations:
            print("ERROR: check %s could not decide: %s" % (pid, e))
            if os.environ.get("VERIF_KEEP"):
                print("scratch kept:", ctx.scratch)
            else:
                ctx.close()
            return 2
        print("note: the check was cut short: %s" % str(e)[:2000])
    wall = time.time() - t0
    findings = known_findings(pid)
    fresh = []
    for what, detail in ctx.violations:
        for key, _ in findings:
            if key in what:
                break
        else:
            fresh.append((what, detail))
    for key, text in findings:
        print("KNOWN-FINDING: property=%s %s" % (pid, text))
    evidence = os.path.join(os.environ.get("DRIPVERIF_OUT") or VERIF, "evidence")
    os.makedirs(evidence, exist_ok=True)
    cov = dict(ctx.cov, samples=ctx.samples or ["none"], jobs=ctx.jobs)
    if ctx.exhaustive is not None:
        cov["exhaustive"] = ctx.exhaustive
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=cov,
              assumptions=ctx.assumptions, wall_s=round(wall, 2), violations=len(fresh))
    with open(os.path.join(evidence, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    for n, (what, detail) in enumerate(fresh[:5]):
        os.makedirs(OUT, exist_ok=True)
        p = os.path.join(OUT, "%s-%s-%d-%d.json" % (pid, tier, seed, n))
        with open(p, "w") as f:
            json.dump(dict(property=pid, what=what, detail=detail), f, indent=1, default=str)
        print("  " + what[:1500])
        print("VIOLATION property=%s replay=%s" % (pid, p))
    print("%s %s: %s in %.1f s (%d model states, %d transitions, %d traces of the real code)" % (
        pid, tier, "VIOLATED" if fresh else "held", wall, ctx.cov["states"], ctx.cov["transitions"],
        ctx.cov["traces_validated_against_impl"]))
    if os.environ.get("VERIF_KEEP"):
        print("scratch kept:", ctx.scratch)
    else:
        ctx.close()
    return 1 if fresh else 0
