"""C30 bitfields, C31 futures, C33 magnet links."""


def c30(ctx):
    q = ctx.quick
    long = {tuple((b * k + d) % 256 for k in range(n)) for n in (5, 8, 9, 16, 17, 33) for b, d in ((0, 0), (0, 255), (37, 1))}
    ctx.walk("Bitfield", dict(Sizes=set(range(18 if q else 27)) | {31, 32, 33, 63, 64, 65, 72, 127, 128, 129, 255, 256, 257, 1000},
                              Indices={0, 7, 8, 31, 32, 62, 63, 64, 127, 128, 255, 256}, Longs=long, MaxAdded=3, ByteVals={0, 255, 129, 165, 15} if q else {0, 255, 129, 165, 15, 64, 126},
                              MaxLen=2 if q else 3), "bitfield", {}, None, ["Agree"])


def c31(ctx):
    tr = ctx.path("futures")
    ctx.drv("future", dict(rounds=3000 if ctx.quick else 60000, logged=600 if ctx.quick else 4000, threads=4), traces=tr)
    if not ctx.violations:
        ctx.validate("FutureTrace", tr, dict(NT=4), what="a history of a future")


def c33(ctx):
    v = lambda text, raw=None: dict(text=text, raw=raw if raw is not None else text)
    n = lambda raw, text=None: dict(raw=raw, err=text is None, text=text or "")
    vals = [v("a"), v(""), v("urn:btih:abc"), v("x y", "x%20y"), v("http://t/a?b=c&d", "http%3A%2F%2Ft%2Fa%3Fb%3Dc%26d"), v("1+1", "1%2B1"), v("p q", "p+q"), v("udp://h:1", "udp://h:1"), v("%41", "%2541")]
    lens = [n("123", "123"), n("0", "0"), n("12x"), n("", "0"), n("-"), n("0x10"), n("1.5"), n("9999999999", "9999999999"), n("99999999999999999999"), n("12%33", "123"), n("1 2".replace(" ", "%20"))]
    pre = [dict(raw="magnet:?", err=False)]
    keys = {"xt", "dn", "tr", "ws", "x.pe", "xl"}
    odd = pre + [dict(raw="magnet:?zz=1&", err=False), dict(raw="%zz:?", err=True), dict(raw="magnet:?kt=a&", err=False),
                 dict(raw=":?", err=True), dict(raw="mag\x7fnet:?", err=True)]
    run = lambda **kw: ctx.walk("Magnet", dict(dict(Keys=keys, Vals=TS(vals), Lengths=TS(lens), MaxParams=2, Counts=set(), Prefixes=TS(pre)), **kw), "magnet")
    run(MaxParams=1, Prefixes=TS(odd))
    run()
    run(MaxParams=0, Counts={5, 30, 100, 1000} if ctx.quick else {5, 30, 64, 65, 100, 255, 256, 257, 1000, 5000})
    run(Vals=TS(vals[:1] + vals[3:4]), Lengths=TS(lens[:1] + lens[2:3]), MaxParams=3 if ctx.quick else 4)


class TS(set):
    """A set of records, for TLA+."""
    def __init__(self, items):
        super().__init__(HD(x) for x in items)


class HD(dict):
    def __hash__(self):
        return hash(tuple(sorted(self.items())))


REG = dict(C30=c30, C31=c31, C33=c33)
