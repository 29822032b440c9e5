"""C11-C21, C32: executions of the client among scripted remotes, on virtual
time, checked against Swarm.tla."""
import json, os, random, re
from props_small import HD

MEAN = {
    "whole": "the client sent something that is no message", "hs": "a message before the handshakes were done or after the remote's was refused",
    "first": "the first message on a connection is not the bitfield, or it was sent twice", "bf": "the bitfield sent is not that of the verified pieces",
    "unique": "two active connections to the same remote", "cap": "more than 50 connections", "have": "a have message for a piece not verified, or a second one",
    "haveall": "a verified piece was not announced to a connected remote", "int": "interest without reason or twice", "nint": "interest withdrawn while the remote has a missing piece, or twice",
    "mustint": "no interest in a remote that has a missing piece", "mustnint": "interest kept in a remote that has nothing missing",
    "toggle": "choke or unchoke repeated", "reqhas": "a piece requested that the remote did not announce", "verified": "a verified piece requested",
    "requnch": "a request while the remote was choking", "reqint": "a request without interest told", "exact": "a request that is not a block", "once": "a block requested twice in an attempt",
    "single": "a piece requested from two remotes at the same time", "rare": "a piece requested although a rarer one was free",
    "up": "block data that was not requested, or is wrong, or twice", "upchoked": "block data sent while choking", "upmust": "a proper request was not answered",
    "upcount": "the uploaded count is not the bytes sent", "downcount": "the downloaded count is not the bytes received", "unchoke": "a remote was not unchoked in time",
    "progress": "a free piece of an unchoking remote is not requested, or a request is forgotten", "complete": "the download does not complete although a remote answers everything",
    "done": "the pieces verified are not those received whole", "pub": "what is published is not the torrent", "corrupt": "a remote that sent corrupt data stays connected",
    "blocked": "a blocked address was dialed", "dial": "an address that was listed is not dialed", "dialed": "an address was dialed that was not listed", "dialonce": "an address dialed twice at a time",
    "interval": "no announce in an interval", "ownhs": "the client's handshake is wrong", "badclosed": "a connection whose handshake was bad or missing is still open",
    "rxcx": "a connection closed by the remote is still open here", "admit": "a proper handshake did not lead to an active connection", "just": "a connection was closed without reason",
    "ann": "an announce does not tell the truth", "event": "an announce with the wrong event", "running": "the client stopped by itself",
    "stopclose": "after stopping, the listener or a connection is open", "stopret": "Start has not returned after stopping", "stopann": "no tracker was told of the stop",
}
RULES = set(MEAN)
MEAN.update({
    "keep": "a client lost a piece that it had verified", "origin": "a client got a piece from nobody", "bytes": "the bytes counted do not add up",
    "everybody": "a piece that somebody has did not get to everybody", "published": "what is published is not the torrent",
})
HEAVY = {"full": 0.4, "dial": 0.6, "admit": 0.8, "mixed": 0.7, "flood": 0.12}


def swarm(ctx, profile, runs, rules, **params):
    """Record executions and have TLC check them; rules are those that count."""
    real = profile in ("stall", "stopreal")
    if not real:
        runs = int(runs * HEAVY.get(profile, 1))
    n = len(ctx.jobs)
    traces = ctx.path("swarm%d" % n)
    before = len(ctx.violations)
    ctx.drv("swarm", dict(runs=runs, profile=profile, bubbles=0 if real else 8, real=real, **params), traces=traces, test=True, flags=("-tags", "verif"), timeout=800)
    if len(ctx.violations) > before or not os.path.exists(traces):
        return
    check(ctx, traces, set(rules), "a run of the client (%s)" % profile)
    os.remove(traces)


HAVES = {((0, 1), (), ()), ((0,), (1,), ()), ((0,), (), (0, 1))}


def networks(ctx, most, rules, together, length):
    """The same for all that NetworkStimuli allows to happen to three clients."""
    n = len(ctx.jobs)
    sf = ctx.path("net%d.scripts" % n)
    ctx.tlc("NetworkStimuli", dict(N=3, Haves=HAVES, L=length, Idles={1, 80}), constraint="Report", env={"EDGES": sf}, timeout=800)
    lines = sorted({l if l[0] == "{" else json.loads(l) for l in open(sf).read().split("\n") if l})
    total = len(lines)
    random.Random(ctx.seed).shuffle(lines)
    lines = lines[:most]
    with open(sf, "w") as f:
        f.write("\n".join(lines) + "\n")
    ctx.cov["scripts"] = ctx.cov.get("scripts", 0) + len(lines)
    ctx.cov["scripts_of"] = ctx.cov.get("scripts_of", 0) + total
    network(ctx, len(lines), rules, together, cases=sf)
    os.remove(sf)


def network(ctx, runs, rules, together="", cases=""):
    """Several real clients and the real tracker; each client is held to the rules, and
    all of them to those named together."""
    n = len(ctx.jobs)
    traces = ctx.path("net%d" % n)
    before = len(ctx.violations)
    ctx.drv("network", dict(runs=runs, bubbles=8), traces=traces, cases=cases, test=True, flags=("-tags", "verif"), timeout=800)
    if len(ctx.violations) > before or not os.path.exists(traces):
        return
    if together:
        check(ctx, traces + ".net", set(together.split()), "a swarm of clients", "NetworkTrace")
    if rules and not ctx.violations:
        check(ctx, traces, set(rules.split()), "one client of several")
    os.remove(traces)
    os.remove(traces + ".net")


CROSSED = "crossed-connections"


def crossed(ev):
    """Is this the known finding? Since all was calm, those with a piece and those without it
    connected to each other only at the same time, at least three times, and each time
    both connections were closed at once."""
    calm = max([n for n, e in enumerate(ev) if e["k"] == "calm"] or [len(ev)])
    has = [e for e in ev if e["k"] == "q"][-1]["has"]
    pairs = {(i, j) for i, a in enumerate(has, 1) for j, b in enumerate(has, 1) if set(b) - set(a)}
    for i, j in pairs:
        L = [e for e in ev[calm:] if e["k"] in ("link", "unlink") and {e["i"], e["j"]} == {i, j}]
        made = [e for e in L if e["k"] == "link"]
        gone = [e for e in L if e["k"] == "unlink"]
        times = lambda a, b, l: [e["t"] for e in l if (e["i"], e["j"]) == (a, b)]
        one, two = times(i, j, made), times(j, i, made)
        if not (one == two and len(one) >= 3 and all(len([g for g in gone if 0 <= g["t"] - t < 5000]) == 2 for t in one)):
            return False
    return bool(pairs)


def check(ctx, traces, rules, what, module="SwarmTrace"):
    lines = [l for l in open(traces).read().split("\n") if l.strip()]
    con = dict(Rules=rules)
    bad = ctx._rejected(module, lines, con, 800, 8, view="View")
    ctx.cov["traces_validated_against_impl"] += len(lines)
    ctx.cov["impl_steps"] = ctx.cov.get("impl_steps", 0) + sum(l.count('"k":') for l in lines)
    for i in bad[:3]:
        n = len(ctx.jobs)
        far = ctx._progress(module, lines[i], con, 600, view="View")
        broken = re.findall(r"\w+", open(ctx.path("prog%d.rules" % n)).readline()) if os.path.exists(ctx.path("prog%d.rules" % n)) else []
        ev = json.loads(lines[i])
        at = ev["ev"][far - 1] if 0 < far <= len(ev["ev"]) else None
        if broken == ["everybody"] and crossed(ev["ev"]) and CROSSED in [k for k, _ in lib.known_findings(ctx.pid)]:
            ctx.cov[CROSSED] = ctx.cov.get(CROSSED, 0) + 1
            continue
        ctx.violate("%s broke %s at event %d, %s: %s" % (what, ", ".join(broken), far, json.dumps(at)[:300], "; ".join(MEAN.get(r, r) for r in broken)),
                    dict(seed=ev.get("seed"), cfg=ev["cfg"], history=ev["ev"][:far], broken=broken))
    ctx.cov["histories_rejected"] = ctx.cov.get("histories_rejected", 0) + len(bad)


def op(o, c=0, p=0, S=(), j=True):
    return HD(o=o, c=c, p=p, S=tuple(S), j=j)


TWO = (op("in", 1, 1), op("in", 2, 2))
def both(*l):  # then rest
    return TWO + tuple(l)


LEECH = dict(NC=2, NP=2, Done=set(), Nb=2, Idents={1, 2}, Kinds={"bf", "have", "choke", "unchoke", "ans", "bad", "part", "close", "idle13", "idle30"},
             HsKinds=set(), Modes=set(), Lists=set(), MaxJ=1)
SCRIPTS = dict(
    # Two remotes with nothing; one that may be asked; two that may; then all they can do.
    fetch=dict(LEECH, Preludes={TWO, both(op("bf", 1, 0, (0, 1), False), op("unchoke", 1)),
                                both(op("bf", 1, 0, (0, 1), False), op("bf", 2, 0, (0, 1)), op("unchoke", 1), op("unchoke", 2))}),
    # Three remotes that have the same piece, or different ones.
    rare=dict(LEECH, NC=3, NP=3, Nb=1, Idents={1, 2, 3}, Kinds={"have", "unchoke", "choke", "ans", "close"}, MaxJ=0,
              Preludes={both(op("in", 3, 3), op("bf", 1, 0, (0, 1, 2), False), op("bf", 2, 0, (0,)), op("bf", 3, 0, (1,)))}),
    # Remotes that want something.
    upload=dict(LEECH, NC=2, NP=2, Done={0}, Nb=2, Kinds={"req", "reqs", "cancel", "choke", "unchoke", "have", "ans", "close", "idle13", "int"},
                Preludes={TWO, both(op("bf", 1, 0, (0, 1), False), op("unchoke", 1)) + (op("idle", 0, 13, (), False),)}),
    # Handshakes.
    admit=dict(LEECH, NC=3, NP=1, Done={0}, Nb=1, Kinds={"in", "raw", "hs", "close", "idle13", "junk", "have", "req"}, HsKinds={"good", "hash", "proto", "own", "cut"},
               Preludes={()}),
    # All the while, the client is told to stop after it.
    stop=dict(LEECH, NC=2, NP=2, Done={0}, Nb=1, Kinds={"in", "raw", "bf", "have", "unchoke", "ans", "list", "mode", "req", "junk", "idle13"}, HsKinds={"good"},
              Modes={"hang", "slow"}, Lists={(1, 2)}, MaxJ=2, Preludes={(), (op("in", 1, 1), op("bf", 1, 0, (0, 1), False), op("unchoke", 1))}),
    # Addresses.
    dial=dict(LEECH, NC=1, NP=1, Done=set(), Nb=1, Kinds={"list", "mode", "drop", "in", "idle30", "close"}, Modes={"refuse", "hang", "slow", "hash", "own"},
              Lists={(1,), (1, 1), (1, 0, 2)}, Idents={1, 2}, MaxJ=0, Preludes={()}),
)


def scripts(ctx, kind, rules, length=0, most=0):
    """Do all sequences of stimuli that Stimuli.tla allows to the real client."""
    con = dict(SCRIPTS[kind])
    con["L"] = length
    n = len(ctx.jobs)
    sf = ctx.path("scripts%d" % n)
    ctx.tlc("Stimuli", con, constraint="Report", env={"EDGES": sf}, timeout=800)
    lines = sorted({l if l[0] == "[" else json.loads(l) for l in open(sf).read().split("\n") if l})
    total = len(lines)
    if most and total > most:
        random.Random(ctx.seed).shuffle(lines)
        lines = lines[:most]
    with open(sf, "w") as f:
        f.write("\n".join(lines) + "\n")
    ctx.cov["scripts"] = ctx.cov.get("scripts", 0) + len(lines)
    ctx.cov["scripts_of"] = ctx.cov.get("scripts_of", 0) + total
    for at in range(0, len(lines), 8000):
        traces = ctx.path("swarm%d" % len(ctx.jobs))
        ctx.drv("swarm", dict(profile="script", abrupt=kind == "stop", bubbles=8, runs=min(8000, len(lines) - at), **{"from": at, "np": con["NP"], "nb": con["Nb"], "done": sorted(con["Done"])}),
                cases=sf, traces=traces, test=True, flags=("-tags", "verif"), timeout=800)
        if ctx.violations or not os.path.exists(traces):
            return
        check(ctx, traces, set(rules), "a run of the client (%s, enumerated)" % kind)
        os.remove(traces)
        if ctx.violations:
            return
    os.remove(sf)


INV = "OneEach NoStranger Strangers Asked Asks Wants Truth OneFetch Wanted Contained Told Interested Answered1 Freed Counts Completes".split()


def model(ctx, waive=None, **con):
    """All executions of a small client that keeps the rules: they do not contradict
    each other (no deadlock) and imply the guarantees."""
    c = dict(Np=1, Nb=1, Done0=(), Rounds=5, Burst=1, MaxConns=1, Ids={1}, Ips={1}, Env={"rx"}, Addrs=1, Waived={waive} if waive else set(), Pre=0)
    c.update(con)
    ctx.tlc("SwarmModel", c, invariants=INV, view="View", deadlock=True, workers=4 if ctx.quick else 8, timeout=800, heap="12g", ok_codes=(11, 12) if waive else (0,))


M = dict(  # property: (in the quick tier, in the thorough tier) ...
    C11=[(dict(Rounds=5, MaxConns=2, Ids={1, 2}, Env={"badhs", "rx", "tick"}), dict(Rounds=6))],
    C12=[(dict(Rounds=6, MaxConns=3, Ips={1, 2}, Env={"badhs", "rx"}), dict(Rounds=7))],
    C13=[(dict(Rounds=5, Done0=(0,), Np=2, Env={"req", "tick", "rx"}), dict(Rounds=7)), (dict(Rounds=4, Pre=1, Env={"req", "tick", "pc"}), dict(Rounds=6))],
    C14=[(dict(Rounds=6, Np=2, Nb=2, Burst=2, Env={"have", "unchoke", "choke", "pc", "rx"}), dict(Rounds=8)),
         (dict(Rounds=2, Pre=1, Np=2, Nb=2, Burst=2, Env={"unchoke", "choke", "pc", "tick"}), dict(Rounds=4))],
    C15=[(dict(Rounds=4, Np=2, MaxConns=2, Ips={1, 2}, Env={"have", "unchoke", "pc", "tick"}), dict(Rounds=6)),
         (dict(Rounds=2, Pre=2, Np=2, Nb=1, Env={"unchoke", "choke", "pc", "rx", "tick"}), dict(Rounds=3, Nb=2))],
    C16=[(dict(Rounds=5, Np=2, MaxConns=2, Ips={1, 2}, Env={"have", "unchoke", "pc", "choke"}), dict(Rounds=6))],
    C17=[(dict(Rounds=6, Burst=2, MaxConns=2, Ips={1, 2}, Env={"bf", "unchoke", "pc", "bad"}), dict(Rounds=7)),
         (dict(Rounds=3, Pre=2, Nb=2, Burst=2, Env={"pc", "bad", "rx"}), dict(Rounds=4))],
    C18=[(dict(Rounds=6, Np=2, Nb=1, Burst=2, Env={"have", "unchoke", "pc", "rx", "bf"}), dict(Rounds=8)),
         (dict(Rounds=2, Pre=2, Np=2, Nb=1, Burst=2, Env={"choke", "pc", "rx"}), dict(Rounds=3))],
    C19=[(dict(Rounds=14, Np=2, Nb=2, Env={"honest"}), dict(Rounds=18))],
    C20=[(dict(Rounds=5, Env={"stop", "list", "bf", "unchoke"}), dict(Rounds=6, MaxConns=2, Ips={1, 2}))],
    C21=[(dict(Rounds=5, MaxConns=2, Ips={1, 2}, Env={"list", "rx"}, Addrs=2), dict(Rounds=6))],
    C32=[(dict(Rounds=5, Np=2, Env={"have", "unchoke", "pc", "req"}), dict(Rounds=7))],
)


# Without these rules the guarantees do not follow (the model is not vacuous); the configuration that shows it.
NEEDED = dict(C11=("hs first", 0), C12=("unique rxcx", 0), C13=("up upmust upchoked", 0), C14=("int mustint reqhas verified requnch reqint", 0),
              C15=("single verified", 1), C17=("corrupt have", 0), C18=("have haveall bf first", 0), C19=("progress", 0))


def make(jobs, real=(), enum=(), net=0):
    """jobs: (profile, share of the runs, rules); enum: (kind, length, at most, rules);
    net: runs of several clients"""
    def f(ctx):
        for quick, more in M.get(ctx.pid, []):
            model(ctx, **quick) if ctx.quick else model(ctx, **dict(quick, **more))
        if not ctx.quick and ctx.pid in NEEDED:
            rules, i = NEEDED[ctx.pid]
            for r in rules.split():
                model(ctx, waive=r, **M[ctx.pid][i][0])
        for kind, length, most, rules in enum:
            scripts(ctx, kind, rules.split(), length, most if ctx.quick else 0)
            if not ctx.quick and not ctx.violations:
                scripts(ctx, kind, rules.split(), length + 1, 40000)
            if ctx.violations:
                return
        for profile, share, rules in jobs:
            swarm(ctx, profile, int((1500 if ctx.quick else 12000) * share), rules.split())
            if ctx.violations:
                return
        if net:
            network(ctx, net if ctx.quick else 8 * net, " ".join(sorted({r for _, _, rules in jobs for r in rules.split()})))
        for profile, n, rules in real:
            swarm(ctx, profile, n if ctx.quick else 4 * n, rules.split())
    return f


TOGETHER = "keep origin bytes everybody published"
EACH = "done complete pub progress have haveall admit whole running"


def c34(ctx):
    def tlc(prop, wrong=None, **con):
        c = dict(N=3, NP=1, Have=({0}, set(), set()), Faults=1, Wrong={wrong} if wrong else set(), Look=prop == "Sound")
        ctx.tlc("NetworkModel", dict(c, **con), spec="Spec", properties=[prop], workers=4 if ctx.quick else 8, timeout=800, heap="12g", ok_codes=(12, 13) if wrong else (0,))
    two = dict(N=2, NP=2, Have=({0}, {1}))
    tlc("Sound", **two, Faults=2)
    tlc("Spread", **two, Faults=2)
    tlc("Spread", NP=2, Have=({0}, {1}, set()))
    if not ctx.quick:
        tlc("Sound", Faults=2)
        tlc("Spread", NP=2, Have=({0}, {1}, set()), Faults=2)
        for w in ("again", "retry", "cross"):
            tlc("Spread", wrong=w)
        for w in ("lose", "invent", "overcount"):
            tlc("Sound", wrong=w)
    network(ctx, 900 if ctx.quick else 8000, EACH, TOGETHER)
    if not ctx.violations:
        networks(ctx, 2000 if ctx.quick else 20000, EACH, TOGETHER, 5)


ALIVE = "just admit upmust haveall complete done running rxcx whole"
REG = dict(
    C34=c34,
    C11=make([("admit", 1, "hs ownhs badclosed admit"), ("hostile", .6, "hs ownhs badclosed admit"), ("dial", .6, "hs ownhs badclosed admit")], enum=[("admit", 4, 3000, "hs ownhs badclosed admit")]),
    C12=make([("admit", 1, "unique cap admit rxcx just"), ("full", 1, "unique cap admit rxcx just"), ("dial", .4, "unique cap admit rxcx just"), ("wear", .15, "unique cap admit rxcx just dial"), ("flood", .3, "unique cap admit rxcx just dial")], enum=[("admit", 4, 2000, "unique cap admit rxcx just")], net=150),
    C13=make([("upload", 1.3, "up upchoked upmust upcount unchoke toggle"), ("mixed", .6, "up upchoked upmust upcount unchoke toggle"), ("hostile", .5, "up upchoked upmust upcount unchoke toggle"), ("many", 0.06, "up upchoked upmust upcount unchoke toggle"), ("long", 0.06, "up upchoked upmust upcount unchoke toggle")], enum=[("upload", 3, 3000, "up upchoked upmust upcount unchoke toggle")], net=150),
    C14=make([("fetch", 1, "int nint mustint mustnint reqhas verified requnch reqint progress"), ("race", 1.2, "int nint mustint mustnint reqhas verified requnch reqint progress"), ("mixed", .6, "int nint mustint mustnint reqhas verified requnch reqint progress"),
              ("rare", .4, "int nint mustint mustnint reqhas verified requnch reqint progress"), ("many", 0.08, "int nint mustint mustnint reqhas verified requnch reqint progress"), ("long", 0.06, "int nint mustint mustnint reqhas verified requnch reqint progress")], enum=[("fetch", 3, 2500, "int nint mustint mustnint reqhas verified requnch reqint progress")]),
    C15=make([("fetch", 1.1, "exact once single verified progress"), ("race", .7, "exact once single verified progress"), ("mixed", .8, "exact once single verified progress"), ("rare", .4, "exact once single verified progress"), ("many", 0.06, "exact once single verified progress"), ("long", 0.12, "exact once single verified progress")], enum=[("fetch", 3, 2500, "exact once single verified progress")], net=150),
    C16=make([("rare", 1.8, "rare"), ("fetch", .5, "rare")], enum=[("rare", 3, 2000, "rare")]),
    C17=make([("fetch", .8, "corrupt blocked done complete pub progress up have"), ("hostile", .8, "corrupt blocked done complete pub progress up have"), ("dial", .6, "corrupt blocked done pub"), ("many", 0.06, "corrupt blocked done complete pub progress up have"), ("long", 0.06, "corrupt blocked done complete pub progress up have")], enum=[("fetch", 3, 2000, "corrupt blocked done complete pub progress up have")]),
    C18=make([("fetch", .8, "first bf have haveall"), ("race", .8, "first bf have haveall"), ("mixed", .8, "first bf have haveall"), ("admit", .5, "first bf have haveall"), ("many", 0.08, "first bf have haveall"), ("full", 0.15, "first bf have haveall")], enum=[("fetch", 3, 2000, "first bf have haveall")], net=150),
    C19=make([("hostile", 1.8, ALIVE), ("admit", .5, ALIVE)], [("stall", 60, ALIVE + " unchoke")], enum=[("admit", 4, 1500, ALIVE)]),
    C20=make([("stop", 2.5, "stopclose stopret stopann running event"), ("dial", .6, "running event")], [("stopreal", 80, "stopclose stopret stopann running event")], enum=[("stop", 3, 3000, "stopclose stopret stopann running event")]),
    C21=make([("dial", 1.8, "dial dialed dialonce blocked interval running"), ("full", .3, "dial dialed dialonce blocked interval"), ("wear", .06, "dial dialed dialonce blocked interval"), ("flood", .8, "dial dialed dialonce blocked interval")], enum=[("dial", 3, 2500, "dial dialed dialonce blocked interval running")], net=150),
    C32=make([("mixed", 1, "whole up have exact once toggle hs first"), ("race", .5, "whole up have exact once toggle hs first"), ("upload", .6, "whole up have exact once toggle hs first"), ("long", 0.06, "whole up have exact once toggle hs first")], [("stall", 60, "whole up have toggle hs first")]),
)
if os.environ.get("VERIF_DEV"):  # for tools/automut.py: everything at once
    ALL = " ".join(RULES)
    REG["SWARM"] = make([(p, .35, ALL) for p in ("hostile", "fetch", "mixed", "admit", "upload", "dial", "race", "stop", "full", "rare", "flood")] + [("wear", .08, ALL), ("many", .04, ALL), ("long", .04, ALL)],
                        [("stall", 30, ALL), ("stopreal", 30, ALL)],
                        enum=[("fetch", 3, 600, ALL), ("rare", 3, 500, ALL), ("upload", 3, 600, ALL), ("admit", 4, 600, ALL), ("stop", 3, 600, ALL), ("dial", 3, 500, ALL)], net=200)
