"""C22, C23: announcing; C24-C26: the bundled tracker and the tracker protocol."""
from props_small import HD
from props_swarm import swarm

FAIL = {"reason", "reasonpeers", "reason400", "garbage", "html500", "empty", "drop", "truncated", "cut", "list", "peers7", "badpeer"}
T = lambda *tiers: tuple(tuple(t) for t in tiers)


def c22(ctx):
    def run(workers=0, **kw):
        c = dict(Lists=(), Singles=(), Dead={7, 8, 9}, Kinds=FAIL, Events={""})
        c.update(kw)
        ctx.walk("Multitracker", c, "multitracker", dict(workers=workers), None, ["SameTiers"], timeout=800)
    run(Lists=(T([1]), T([1, 2]), T([1], [2]), T([1, 2, 3]), T([1, 2], [3, 4]), T([1], [], [2]), T([7, 1]), T([8], [1]), T([9, 8, 7]), T([])),
        Singles=(1, 7, 9))
    few = dict(Kinds={"reason", "drop"})
    run(Lists=(T([1, 2], [3], [4, 5]), T([1, 2, 3, 4]), T([1, 2], [1, 3]), T([1, 7, 2], [3, 8])), **few)
    run(Lists=(T([1, 2], [3]),), Singles=(2,), Events={"started", "completed", "stopped", ""}, **few)
    if not ctx.quick:
        run(Lists=(T([1, 2, 3], [4, 5, 6]), T([1, 2, 3, 4, 5]), T([1], [2], [3], [4], [5]), T([1, 2, 3], [4], [5, 6])), **few)
    # A tracker that does not answer at all.
    run(Lists=(T([1], [2]),), Kinds={"hang"}, workers=4)


def ident(h, i):
    return HD(hash=tuple(h), id=tuple(i))


def announce(ctx, fields, thorough=False):
    BL = 16384
    seq = lambda *b: [*b] + list(range(65, 65 + 20 - len(b)))
    geos = [HD(pl=2, total=5, unit=BL, can=True, layout=""), HD(pl=2, total=5, unit=BL, can=True, layout="multi"), HD(pl=1, total=1, unit=BL + 7, can=True, layout=""),
            HD(pl=4, total=400, unit=2 ** 24, can=False, layout=""), HD(pl=100, total=250, unit=1, can=True, layout="multi")]
    if not ctx.quick:
        geos += [HD(pl=1, total=6, unit=BL, can=True, layout="multi"), HD(pl=3, total=11, unit=7001, can=True, layout=""), HD(pl=64, total=2 ** 30, unit=2 ** 21, can=False, layout="")]
    ids = [ident(seq(0), seq(1)), ident([0] * 20, [255] * 20), ident(seq(32, 43, 37, 38, 61, 35, 63, 47), seq(37, 52, 49, 43, 32, 0, 10, 13)),
           ident(range(236, 256), range(120, 140)), ident(range(0, 20), range(20, 40)), ident(range(128, 148), range(40, 60)), ident(range(80, 100), range(100, 120))]
    u = lambda path, q="", *params: HD(path=path, query=q, params=tuple(tuple(p) for p in params))
    urls = [u("/announce"), u("/announce", "?passkey=ab%26c%20d", ("passkey", "ab&c d")), u("/x/announce.php", "?a=1&b=2&a=3", ("a", "1"), ("b", "2"), ("a", "3")),
            u("/announce", "?"), u("/announce", "?key2=", ("key2", "")), u("/p%20q".replace("%20", " "), "?z=%ff%00", ("z", "\u00ff\u0000"))]
    urls = urls[:5] + [u("/announce", "?y=%e2%82%ac", ("y", "\u20ac")), u("/announce", "?x=a+b&&c=d", ("x", "a b"), ("c", "d"))]
    ctx.walk("Announce", dict(Geos=tuple(geos), Ids=tuple(ids), Ports={6881, 1, 80, 65535}, Urls=tuple(urls), Events={"started", "completed", "stopped", ""}),
             "announce", {}, fields, ["Left"], timeout=800)


def c23(ctx):
    announce(ctx, None)
    # A client at work: amounts and events over its whole life.
    for p, n in (("dial", 700), ("mixed", 500), ("stop", 600)):
        swarm(ctx, p, n if ctx.quick else 10 * n, {"ann", "event"})


BAD = ["hash=unknown", "hash=short", "hash=long", "hash=one", "hash=case", "hash=hex", "no=info_hash", "id=short", "id=long",
       "ip=999.1.1.1", "ip=localhost", "ip=1.2.3", "ip=1.2.3.4:80", "ip=2001:db8::1::2", "ip=10.1.2.3 ", "ip=\\x00",
       "port=0", "port=65536", "port=-1", "port=99999999", "port=4294974177", "port=72417", "port=-58655", "no=port", "port=abc", "port=9223372036854775808",
       "port=6881.0", "port=0x1ae1", "query=%zz", "query=a=%", "remote=nonsense", "remote=", "remote=:6881", "uploaded=abc",
       "left=99999999999999999999", "downloaded=1e3"]
REASON = [b for b in BAD if b.startswith(("ip=", "remote=")) or b in ("hash=unknown", "hash=case") or
          b in ("port=0", "port=65536", "port=-1", "port=99999999", "port=4294974177", "port=72417", "port=-58655", "no=port")]
V4 = (True, False, True, True, False)


def tracker(ctx, fields, probe=False, crowd=0, **kw):
    c = dict(NT=1, V4=V4[:3], NI=2, Spells={1}, Events={"", "started", "completed"}, Bad=set(), Reasons=set(REASON), Ticks=True)
    c.update(kw)
    ctx.walk("Tracker", c, "tracker", dict(torrents=c["NT"], probe=probe, crowd=crowd), fields, ["TypeOK"], test=True, timeout=800)


def c24(ctx):
    f = ["err", "peers"]
    tracker(ctx, f)
    tracker(ctx, f + ["swarm"], True, V4=V4[:2], Spells={1, 2, 3, 4, 5}, Bad={"port=0", "port=65536", "ip=localhost", "id=short", "uploaded=abc"})
    tracker(ctx, f + ["swarm"], True, NT=2, V4=V4[:2], NI=1 if ctx.quick else 2, Events={""})
    tracker(ctx, f, V4=V4[:3], NI=1, Spells={1, 2, 4} if ctx.quick else {1, 2, 3, 4, 5}, Events={""})
    # Very many peers: every address stands for a crowd.
    for n in (40, 130) if ctx.quick else (9, 24, 49, 99, 199, 500):
        tracker(ctx, f + ["swarm"], True, crowd=n, V4=V4[:2], NI=1, Events={""})
    if not ctx.quick:
        tracker(ctx, f, V4=V4[:4], NI=1, Events={""})
        tracker(ctx, f, V4=V4[:4], NI=3, Events={""}, Ticks=False)
    tr = ctx.path("ann")
    ctx.drv("tracker-lin", dict(rounds=2000 if ctx.quick else 30000, logged=300 if ctx.quick else 1500), traces=tr)
    if not ctx.violations:
        ctx.validate("TrackerTrace", tr, dict(NTh=4, V4=V4), what="a concurrent history of the tracker")


def c25(ctx):
    f = ["err", "status", "form", "interval", "reason", "swarm"]
    tracker(ctx, f, True, V4=V4[:2], NI=1 if ctx.quick else 2, Bad=set(BAD), Ticks=False, Spells={1, 2, 3, 4, 5})
    tracker(ctx, f, True, NT=2, V4=V4[:2], NI=1, Bad=set(BAD[::3]), Events={""})
    tracker(ctx, f[:-1], False, V4=V4[:3], NI=1, Bad=set(BAD), Ticks=False, Events={""})


def c26(ctx):
    seq = lambda *b: tuple([*b] + list(range(65, 65 + 20 - len(b))))
    odd = {tuple([0] * 20), seq(37, 43, 38, 61, 32, 35, 59, 47, 63), tuple(range(236, 256)), tuple(range(120, 140)), tuple([32] * 20)}
    peer = lambda ip, port, id="", v4=None: HD(ip=ip, port=str(port), id=id, v4=tuple(int(x) for x in ip.split(".")) if v4 is None else v4,
                                             pb=(port >> 8, port & 255) if 0 <= port < 65536 else ())
    ps = [peer("1.2.3.4", 6881, "-AA0000-abcdefghijkl"), peer("255.255.255.255", 65535, "i"), peer("0.0.0.0", 0), peer("10.0.0.255", 256, "\n"),
          peer("2001:db8::1", 80, "v6", ()), peer("example.org", 80, "name", ()), peer("1.2.3.4", 65536, "p"), peer("1.2.3.4", -1, "p")]
    good = ps[:4]
    sets = {()} | {(p,) for p in ps} | {(p, q) for p in ps for q in ps} | {(p, q, r) for p in good for q in good for r in good}
    if not ctx.quick:
        sets |= {(p, q, r, t) for p in ps for q in good for r in ps for t in good}
    # As long as a large swarm's answer.
    sets |= {tuple(peer("10.%d.%d.7" % (k % 7, k % 251), 1 + k * 129 % 65535, "-LL0000-%012d" % k) for k in range(n)) for n in ((50, 51, 200, 700) if ctx.quick else (5, 17, 33, 50, 51, 64, 100, 101, 128, 200, 201, 256, 700, 3000))}
    c = dict(Mode="request", Hashes=odd, Ids=set(list(odd)[:2]) if ctx.quick else odd, IPs={"", "1.2.3.4", "2001:db8::1", "a b+c&d=e%20"}, Ports={"0", "1", "65535", "-1"},
             Amounts={"0", "1", "2147483648", "9223372036854775807", "-9223372036854775808"} if not ctx.quick else {"0", "1", "9223372036854775807"},
             Events={"", "started", "x y&z=1"} if ctx.quick else {"", "started", "completed", "stopped", "x y&z=1"},
             BadNums={"abc", "1.0", "9223372036854775808", "-9223372036854775809", "1e3", "0x10", " 1", "1 ", "--1", "99999999999999999999999"},
             PeerSets=sets, Intervals={"0", "1800", "-1"}, MaxCompact=19 if ctx.quick else 60, Larger={300, 301, 1200, 1205, 6000} if ctx.quick else {300, 301, 306, 384, 385, 600, 768, 1200, 1205, 1530, 6000, 6001, 60000}, MaxEntries=2 if ctx.quick else 3)
    f = ["err", "pairs", "back", "val", "interval", "warning", "compact", "more", "reason", "cback"]
    for m in ("request", "response", "decode"):
        ctx.walk("TrackerCodec", dict(c, Mode=m), "trackercodec", {}, f)


REG = dict(C22=c22, C23=c23, C24=c24, C25=c25, C26=c26)
