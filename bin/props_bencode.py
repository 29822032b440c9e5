"""C27, C28: bencoding; C29: metainfo."""


def wide(ctx, mode):
    n = {2, 9, 13, 33, 64, 65, 100, 128, 255, 256, 257, 1000, 4095, 4096, 4097, 65535, 65536, 70000} | (set() if ctx.quick else {5, 17, 31, 32, 63, 99, 127, 511, 512, 513, 1023, 1024, 1025, 8192, 32767, 32768, 131072, 200000})
    ctx.walk("Bencode", dict(Mode=mode, MaxLen=0, Chars=("a",), Numbers=set(), Depths=n, Sizes=set()), "bencode", {}, None, workers=1)


def c28(ctx):
    wide(ctx, "wide")
    near = []
    for b in (0, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**63 - 1, 2**63, 2**64 - 1, 2**64, 10**19, 10**20, 2**128):
        near += [b - 1, b, b + 1]
    nums = {str(n) for n in near} | {str(-n) for n in near}
    c = dict(Mode="parse", MaxLen=8 if ctx.quick else 10, Chars=("a", "e"), Numbers=nums, Depths=set(), Sizes=set())
    ctx.walk("Bencode", c, "bencode", {}, None, ["Canonical"], timeout=850)
    ctx.walk("Bencode", dict(c, Mode="ints"), "bencode", {}, None)
    depths = {2, 10, 100, 1000, 10000, 1000000} | (set() if ctx.quick else {5000000})
    sizes = {"4", "100", "1000000000", "2147483647", "2147483648", "4294967299", "9223372036854775807", "9223372036854775808",
             "18446744073709551615", "18446744073709551619", "-1", "-0", "-3", "+3", " 3", "3 ", "0x3", "1e1", "", "a"}
    ctx.walk("Bencode", dict(c, Mode="hostile", Depths=depths, Sizes=sizes), "bencode", dict(workers=1), None)


def c27(ctx):
    wide(ctx, "widenc")
    for mode in ["leaves", "maps", "structs", "nested"] + ([] if ctx.quick else ["deep"]):
        keys = {"", "A", "Z", "a", "aa", "b", "#"}
        skeys = {"a", "a b", "a1", "aa", "b"} | (set() if ctx.quick else {"a-b", "ab"})
        ctx.walk("BencodeEncode", dict(Mode=mode, MapKeys=keys, StructKeys=skeys), "bencode-enc", {}, None, timeout=850)


def c29(ctx):
    c = dict(Mode="fields", MaxDev=2 if ctx.quick else 3, Units={1, 2**20, 2**30}, PieceLens={1, 2, 3, 4, 7}, FileLens={0, 1, 2, 3, 4, 6, 7, 8}, MaxFiles=3 if ctx.quick else 4, Sizes=set())
    ctx.walk("Metainfo", c, "metainfo", {}, None, timeout=850)
    ctx.walk("Metainfo", dict(c, Mode="geometry"), "metainfo", {}, None, ["GeometryLaw"], timeout=850)
    sizes = {2, 15, 16, 17, 60, 100, 255, 256, 257, 1000, 3277} | (set() if ctx.quick else {31, 32, 33, 63, 64, 65, 99, 127, 128, 129, 511, 512, 513, 999, 1001, 2000, 6554, 10000})
    ctx.walk("Metainfo", dict(c, Mode="large", Sizes=sizes), "metainfo", {}, None, timeout=850, workers=1)
    ctx.walk("Metainfo", dict(c, Mode="manyfiles", Units={1, 2**10}, Sizes={2, 7, 30, 100, 700} if ctx.quick else {2, 7, 30, 100, 333, 700, 1500, 3000}), "metainfo", {}, None, timeout=850, workers=1)


REG = dict(C29=c29, C27=c27, C28=c28)
