"""C09, C10: the peer wire protocol."""
U = lambda n: [n >> 24, n >> 16 & 255, n >> 8 & 255, n & 255]
tup = lambda l: tuple(tuple(x) if isinstance(x, list) else x for x in l)


def base(**kw):
    c = dict(Mode="enc", U32={tuple(U(n)) for n in (0, 1, 255, 256, 65536, 2**24 - 1, 2**31 - 1, 2**31, 2**32 - 1)},
             Payloads={tup(p) for p in ([], [[0, 1]], [[255, 1]], [[128, 1], [1, 1]], [[7, 255]], [[9, 16384]], [[1, 1], [200, 65535]], [[77, 300000]], [[3, 2 ** 20]])},
             Types={0}, MaxBody=1, Huge={tuple(U(2**24))}, MaxQueue=1)
    c.update(kw)
    return c


SMALL = dict(U32={tuple(U(n)) for n in (0, 2**32 - 1, 66051)}, Payloads={tup(p) for p in ([], [[0, 1]], [[3, 1], [255, 1]], [[9, 16384]])})


def c09(ctx):
    ctx.walk("Wire", base(), "wire", {}, ["err"], ["Framed"])
    ctx.walk("Wire", base(Mode="hand"), "wire", {}, ["err", "hash", "id", "used"])
    ctx.walk("Wire", base(Mode="stream", MaxQueue=2 if ctx.quick else 3, **SMALL), "wire", {}, ["err", "msg"])


def c10(ctx):
    types = set(range(0, 12)) | {20, 127, 128, 255} if ctx.quick else set(range(256))
    huge = {tuple(U(n)) for n in (2**24, 2**24 + 5, 2**26, 2**31 - 1, 2**31, 2**32 - 2, 2**32 - 1)}
    c = base(Mode="dec", Types=types, MaxBody=18, Huge=huge, **SMALL)
    f = ["err", "msg", "used"]
    ctx.walk("Wire", c, "wire", dict(workers=1 if ctx.quick else 1), f)
    ctx.walk("Wire", base(Mode="hand"), "wire", {}, ["err", "hash", "id", "used"])


REG = dict(C09=c09, C10=c10)
