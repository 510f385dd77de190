"""V01, V02: variable length integers, against specs/varint."""
import itertools
import random

LAWS = "CONSTANTS W = %d G = %d MaxLen = %d Bug = \"%s\"\nSPECIFICATION Spec\nINVARIANTS Agrees\n"
MAXL = {16: 3, 32: 5, 64: 10}


def model(ctx):
    for w, g, n in ((5, 2, 4), (4, 2, 3), (4, 3, 3)) + (((6, 3, 3), (7, 3, 4)) if ctx.thorough else ()):
        ctx.model_check("varint/VarintLaws", LAWS % (w, g, n, ""))
    for b in ("late", "trunc", "peek", "short"):
        ctx.refute("varint/VarintLaws", LAWS % (5, 2, 3, b), b)


def values(rng, w, n):
    """Bit patterns of w bits: all boundaries of groups, powers, runs, random."""
    m = (1 << w) - 1
    s = {0, 1, 2, m, m - 1, m >> 1, (m >> 1) + 1}
    for b in range(w + 1):
        for d in (-2, -1, 0, 1, 2):
            s.add(((1 << b) + d) & m)
            s.add((-(1 << b) + d) & m)
    for i in range(0, w, 7):
        s.add((0x7f << i) & m)
        s.add((1 << i) & m)
        s.add((m << i) & m)
        s.add(m ^ ((0x7f << i) & m))
    while len(s) < n:
        x = rng.getrandbits(w)
        s.add(x >> rng.randrange(w))
        s.add(m ^ (x >> rng.randrange(w)))
    return sorted(s)


def leb(v):
    o = []
    while True:
        b = v & 0x7f
        v >>= 7
        o.append(b | (0x80 if v else 0))
        if not v:
            return o


def hx(bs):
    return "".join("%02x" % b for b in bs) or "-"


def v01(ctx):
    model(ctx)
    rng = random.Random(ctx.seed * 101 + 3)
    e = ctx.exe("varintdrv", ["varintdrv.c"], lib=ctx.lib("std"))
    lines, reads = [], []
    for w in (16, 32, 64):
        vs = values(rng, w, ctx.q(1500, 9000)) if w > 16 or not ctx.thorough else range(65536)
        for v in vs:
            for sg in (0, 1):
                lines.append("w %d %d %x %d 0" % (w, sg, v, rng.choice([MAXL[w], MAXL[w], MAXL[w] + 1, 20])))
        for v in list(vs)[::ctx.q(23, 500)]:
            for sg in (0, 1):
                for cap in range(MAXL[w]):
                    lines.append("w %d %d %x %d 0" % (w, sg, v, cap))
        for nul in (1, 2, 3):
            lines += ["w %d 0 55 12 %d" % (w, nul), "w %d 1 55 12 %d" % (w, nul)]
    recs = ctx.drive(e, lines, what="varint driver")
    ctx.judge("varint/VarintTrace", "", recs, "varint write", shards=8)
    # read back what the code wrote: exact end of buffer, longer length, any following bytes
    for r in recs:
        if r["ret"] == 0:
            k = rng.randrange(4)
            tail = [rng.choice([0, 0xff, 0x80, 0x0f, 0x7f, rng.randrange(256)]) for _ in range(k)]
            if rng.randrange(2):
                reads.append("r %d %d %s - 0" % (r["w"], r["sg"], hx(r["by"] + tail)))
            else:
                reads.append("r %d %d %s %s 0" % (r["w"], r["sg"], hx(r["by"]), hx(tail)))
    back = ctx.drive(e, reads, what="varint driver")
    ctx.judge("varint/VarintTrace", "", back, "varint read of a written value", shards=8)
    ctx.sample(recs[7])
    ctx.sample(back[77])
    ctx.extra["writes"], ctx.extra["reads"] = len(recs), len(back)


def v02(ctx):
    model(ctx)
    rng = random.Random(ctx.seed * 103 + 4)
    e = ctx.exe("varintdrv", ["varintdrv.c"], lib=ctx.lib("std"))
    lines = []
    alpha = [0, 1, 3, 4, 0x0f, 0x10, 0x40, 0x7f, 0x80, 0x81, 0x83, 0x84, 0x90, 0xff]
    for n in range(0, 4):
        for bs in itertools.product(alpha, repeat=n):
            lines.append("r 16 %d %s %s 0" % (rng.randrange(2), hx(bs), rng.choice(["-", "00", "ff", "01", "80", "7f"])))
    # every last group of every width, behind every kind of prefix, at, before and after its place
    for w in (16, 32, 64):
        for ng in range(1, MAXL[w] + 3):
            for last in sorted(set(alpha + [1 << i for i in range(8)] + [rng.randrange(256) for _ in range(ctx.q(6, 250))])):
                for pre in (0x80, 0xff, 0xaa, None):
                    p = [0x80 | (pre if pre is not None else rng.randrange(128)) for _ in range(ng - 1)]
                    tail = rng.choice([[], [0], [0xff], [1], [0x80], [0x0f, 0x0f]])
                    sg = rng.randrange(2)
                    lines.append("r %d %d %s %s 0" % (w, sg, hx(p + [last]), hx(tail)))
                    lines.append("r %d %d %s - 0" % (w, 1 - sg, hx(p + [last] + tail)))
    for r in range(ctx.q(3000, 60000)):
        w = rng.choice([16, 32, 64])
        n = rng.randrange(0, MAXL[w] + 3)
        bs = [rng.randrange(256) | (0x80 if rng.random() < 0.7 else 0) for _ in range(n)]
        lines.append("r %d %d %s %s 0" % (w, rng.randrange(2), hx(bs), hx([rng.randrange(256) for _ in range(rng.randrange(3))])))
    for nul in range(1, 8):
        for w in (16, 32, 64):
            for sg in (0, 1):
                lines.append("r %d %d 05 - %d" % (w, sg, nul))
    recs = ctx.drive(e, lines, what="varint driver")
    ctx.sample(recs[77])
    ctx.sample(recs[-3000])
    ctx.extra["reads"] = len(recs)
    ctx.judge("varint/VarintTrace", "", recs, "varint read", shards=8)
