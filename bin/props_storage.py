"""C01-C08: storage."""
from props_swarm import swarm
from props_small import TS

BL = 16384
INV = ["TypeOK", "OnlyVerified", "FailedIsFull", "OpenNotFull", "NoHungWaiter", "Progress"]
BIG, NEG, ALIGNED = 2**31 - 1, -(2**31 - 1), 2**31 - 2


def storage_consts(pl, total, **kw):
    c = dict(PL=pl, Total=total, BL=BL, PutI={0, 1}, PutB={0, BL}, PutL={BL, total % BL or BL},
             GetI={0, 1}, GetB={0, BL}, GetL={BL, total % BL or BL}, WMax=1, Reload=True)
    c.update(kw)
    return c


def walk_storage(ctx, fields, layouts=("", "multi"), **kw):
    """The sequential machine with waiters; two pieces, the last one short."""
    geos = [(2 * BL, 2 * BL + BL + 5000)]
    if not ctx.quick:
        geos += [(3 * BL, 3 * BL + BL), (BL + 100, 2 * (BL + 100)), (2 * BL, 4 * BL + 1)]
    for pl, total in geos:
        c = storage_consts(pl, total, **kw)
        np = -(-total // pl)
        last = total - (np - 1) * pl
        lens = {BL, last % BL or BL} | ({pl % BL} if pl % BL else set())
        c.update(PutI=set(range(np)), GetI=set(range(np)), PutB={b for b in range(0, pl, BL)}, GetB={b for b in range(0, pl, BL)},
                 PutL=lens, GetL=lens)
        for lay in layouts:
            ctx.walk("Storage", c, "storage-walk", dict(pl=pl, total=total, layout=lay), fields, INV, timeout=800)


def walk_args(ctx, fields):
    """All kinds of integers as arguments, in every state of a small torrent."""
    geos = [(2 * BL, 2 * BL + BL + 5000), (BL + 100, BL + 100 + 300)]
    if not ctx.quick:
        geos += [(BL, 2 * BL), (2 * BL, 2 * BL + 1), (2 * BL + 1, 4 * BL + 2), (100, 150)]
    for pl, total in geos:
        np = -(-total // pl)
        last = total - (np - 1) * pl
        begins = {-BL, -1, 0, 1, BL - 1, BL, BL + 1, 2 * BL, pl, pl + 1, last, NEG, BIG, ALIGNED}
        lens = {0, 1, BL, BL - 1, BL + 1, pl % BL or BL, last % BL or BL, last % BL + 1, (last % BL or BL) - 1, 2 * BL}
        glens = {-1, 0, 1, BL, last, last + 1, pl, pl + 1, pl - 1, total, total + 1, NEG, BIG, ALIGNED}
        c = storage_consts(pl, total, PutI={NEG, -1, np, BIG, ALIGNED} | set(range(np)), PutB=begins, PutL=lens,
                           GetI={NEG, -1, np, BIG, ALIGNED} | set(range(np)), GetB=begins, GetL=glens, WMax=0, Reload=False)
        ctx.walk("Storage", c, "storage-walk", dict(pl=pl, total=total, layout="multi" if pl == 2 * BL else ""), fields,
                 ["TypeOK", "OnlyVerified", "Progress"], timeout=800)


LOADKINDS = {"absent", "exact", "short1", "half", "long1", "flip", "empty", "zeros", "other", "nextpiece", "misnamed", "dir"}
TGTS = {"absent", "exact", "flip", "short1", "long1", "empty", "missing", "otherkind"}


def walk_load(ctx, fields, targets=TGTS):
    for lay in ("", "multi"):
        n = 2 if ctx.quick else 3
        kinds = LOADKINDS if ctx.quick else LOADKINDS | {"double", "flipend"}
        total = (n - 1) * 2 * BL + 5000
        ctx.walk("StorageLoad", dict(N=n, Kinds=kinds, TargetKinds=targets, FewKinds={"absent", "exact"}), "storage-load",
                 dict(pl=2 * BL, total=total, layout=lay), fields, ["OnlyExact", "NothingFromForeign"], timeout=800)


def lin(ctx, rounds, logged):
    # (pl, total) with two and three pieces
    for pl, total, nt, ops in [(2 * BL, 3 * BL + 5000, 3, 4), (BL, 2 * BL + 100, 4, 3)]:
        tr = ctx.path("lin%d" % len(ctx.jobs))
        ctx.drv("storage-lin", dict(pl=pl, total=total, threads=nt, ops=ops, rounds=rounds, logged=logged), traces=tr, timeout=850)
        if not ctx.violations:
            ctx.validate("StorageTrace", tr, dict(PL=pl, Total=total, BL=BL, NT=nt), what="a concurrent history of the storage", timeout=850)


def large(ctx):
    """Sequential histories of torrents with many pieces, or with large ones."""
    for pl, total, n in [(70 * BL + 77, 3 * 70 * BL - 5, 6), (100, 300 * 100 - 1, 4), (BL + 1, 40 * BL, 6), (1, 260, 6), (130 * BL, 131 * BL, 3)]:
        tr = ctx.path("large%d" % len(ctx.jobs))
        n *= 1 if ctx.quick else 6
        ctx.drv("storage-lin", dict(pl=pl, total=total, threads=1, ops=0, rounds=n, logged=n), traces=tr, timeout=850)
        if not ctx.violations:
            ctx.validate("StorageTrace", tr, dict(PL=pl, Total=total, BL=BL, NT=1), what="a history of a large torrent", timeout=850)


def c01(ctx):
    large(ctx)
    walk_storage(ctx, ["get.err", "bits", "reload.err", "pub", "wait.err"])
    walk_load(ctx, ["load.err", "get.err", "piece.err", "finish.err", "bits", "pub"])


    disk(ctx, "claim read", fails=True, fstride=2 if ctx.quick else 1, double=40 if ctx.quick else 2000)


def layouts(ctx, fields):
    tiny = dict(PLs={3, 4}, Lens={0, 1, 2, 3, 4, 5}, MaxFiles=3, MaxTotal=11, MaxPieces=4, Shapes={"flat", "nested"}, BL=BL, Long=TS([]))
    if ctx.quick:
        tiny.update(Lens={0, 1, 3, 4, 5}, MaxTotal=9, MaxPieces=3)
    else:
        tiny.update(PLs={1, 2, 3, 4, 5}, Shapes={"flat", "nested", "samebase"}, MaxTotal=12, MaxPieces=5)
    blocks = dict(PLs={2 * BL, BL + 7}, Lens={0, 1, BL - 1, BL, BL + 1, 2 * BL}, MaxFiles=2 if ctx.quick else 3, MaxTotal=5 * BL, MaxPieces=3,
                  Shapes={"nested"}, BL=BL, Long=TS([]))
    four = dict(PLs={2, 7}, Lens={0, 1, 2, 7}, MaxFiles=4, MaxTotal=14 if ctx.quick else 20, MaxPieces=2 if ctx.quick else 4, Shapes={"samebase"}, BL=BL, Long=TS([]))
    single = dict(PLs={1, 3, 4, BL, BL + 1, 3 * BL}, Lens={1, 2, 3, 4, 5, 8, 9, BL - 1, BL, BL + 1, 2 * BL + 2, 3 * BL, 4 * BL + 1}, MaxFiles=0,
                  MaxTotal=6 * BL, MaxPieces=5, Shapes={"flat"}, BL=BL, Long=TS([]))
    g = lambda n, k, m, first, pl: dict(n=n, k=k, m=m, first=first, pl=pl)
    long = [g(20, 0, 1, 5, 1), g(40, 9, 1, 0, 20), g(40, 30, 4, 3, 7), g(300, 3, 1, 0, 50), g(300, 60, 20, 1, 33), g(60, 3000, 1, 0, BL), g(25, 20000, 2, 7, 2 * BL + 1)]
    if not ctx.quick:
        long += [g(n, k, m, f, pl) for n in (10, 33, 100) for k in (1, 12, 100) for m in (1, 3, 9) for f in (1, 40) for pl in (9, 64, 500)] + [g(1500, 5, 1, 0, 300), g(1100, 2000, 3, 1, 3 * BL)]
    many = dict(PLs=set(), Lens=set(), MaxFiles=1, MaxTotal=0, MaxPieces=0, Shapes={"flat"}, BL=BL, Long=TS(long))
    for c in (tiny, blocks, four, single, many):
        ctx.walk("Layout", c, "layout", {}, fields, ["Tiling"], timeout=800)


def c02(ctx):
    large(ctx)
    layouts(ctx, ["open.err", "piece.err", "reads.err", "pub"])
    walk_storage(ctx, ["pub"], layouts=("multi",))
    disk(ctx, "pub", kills=True, fails=True, stride=2 if ctx.quick else 1, fstride=4 if ctx.quick else 1, double=20 if ctx.quick else 1000, only="multi" if ctx.quick else "all")


def c03(ctx):
    large(ctx)
    walk_args(ctx, ["put.err", "get.err", "bits", "down"])


def c04(ctx):
    lin(ctx, *((800, 250) if ctx.quick else (20000, 3000)))


def c05(ctx):
    walk_storage(ctx, ["wait.err", "twait.err", "rel", "trel", "put.err", "reset.err", "bits"], WMax=1 if ctx.quick else 2)
    if not ctx.quick:
        lin(ctx, 8000, 2000)


def disk(ctx, rules, total=None, **p):
    """Lives of a process that is killed at, or for which fails, any one of its
    file-system calls, and of its successors."""
    tr = ctx.path("disk%d" % len(ctx.jobs))
    pl, total = 2 * BL, total or 4 * BL + 5000
    ctx.drv("disk", dict(dict(pl=pl, total=total, double=0, triple=0), **p), traces=tr, timeout=850)
    if not ctx.violations:
        ctx.validate("StorageDiskTrace", tr, dict(N=-(-total // pl), PL=pl, Total=total, Rules=set(rules.split())),
                     what="the history of a process whose calls fail, or that is killed and restarted,")


def c06(ctx):
    ctx.tlc("StorageDisk", dict(N=2 if ctx.quick else 3, MaxCrash=2 if ctx.quick else 3, MaxFault=2), spec="Spec", properties=["Finishes"],
            invariants=["NeverPartial", "Durable", "Exact", "Claims", "PublishedWhole"])
    disk(ctx, "pub claim read keep ok", kills=True, fails=True, double=60, triple=20, fstride=4)
    if not ctx.quick:
        disk(ctx, "pub claim read keep ok", kills=True, fails=True, double=3000, triple=2000)
    walk_load(ctx, ["load.err", "piece.err", "finish.err", "bits", "pub"], targets={"absent", "exact"})


COMPS = [["a"], ["b"], [".."], ["."], [""], ["", "a"], ["..", "x"], ["a", "b"], ["a", "..", "..", "x"], ["..", ".."], ["..", "..", "victim"],
         ["NUL"], ["..a"], ["a.."], ["..."], ["sp ace"], ["a", ""], ["", ""], ["-rf"], ["a\\b"], ["LONG"]]


def c07(ctx):
    comps = {tuple(c) for c in COMPS}
    few = {tuple(c) for c in ([["a"], ["b"], [".."], [""], ["."], ["..", "x"], ["..", "..", "victim"], ["a", "b"]])}
    f = ["load", "outside", "pub"]
    ctx.walk("Paths", dict(Comps=comps, MaxDepth=1, Pairs=False), "paths", {}, f, ["PlainStays"])
    ctx.walk("Paths", dict(Comps=few, MaxDepth=2 if ctx.quick else 3, Pairs=True) if ctx.quick else
             dict(Comps=few, MaxDepth=2, Pairs=True), "paths", {}, f, ["PlainStays"])
    if not ctx.quick:
        ctx.walk("Paths", dict(Comps=comps, MaxDepth=2, Pairs=False), "paths", {}, f, ["PlainStays"])
        ctx.walk("Paths", dict(Comps={("a",), ("..",), ("..", "..", "..", "x"), (".",)}, MaxDepth=4, Pairs=False), "paths", {}, f, ["PlainStays"])


def c08(ctx):
    walk_storage(ctx, ["down"])
    walk_load(ctx, ["load.err", "down"], targets={"absent", "exact"})
    layouts(ctx, ["down"])
    for p, n in (("fetch", 700), ("mixed", 500)):
        swarm(ctx, p, n if ctx.quick else 10 * n, {"ann", "downcount", "upcount", "done"})


REG = dict(C01=c01, C02=c02, C03=c03, C04=c04, C05=c05, C06=c06, C07=c07, C08=c08)
