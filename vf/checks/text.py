"""U01, U02, C01: UTF-8 and C++ string helpers, against specs/text."""
import itertools
import json
import random

BOUND = [0x01, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3,
         0xf4, 0xf5, 0xf7, 0xf8, 0xfb, 0xfc, 0xfe, 0xff]
SMALL = [0x41, 0x80, 0x90, 0xa0, 0xbf, 0xc1, 0xc2, 0xe0, 0xed, 0xf0, 0xf4, 0xf5, 0xf8]


def hx(b):
    return "".join("%02x" % x for x in b) or "-"


def enc(c):
    if c < 0x80:
        return [c]
    if c < 0x800:
        return [0xc0 | c >> 6, 0x80 | c & 63]
    if c < 0x10000:
        return [0xe0 | c >> 12, 0x80 | c >> 6 & 63, 0x80 | c & 63]
    return [0xf0 | c >> 18, 0x80 | c >> 12 & 63, 0x80 | c >> 6 & 63, 0x80 | c & 63]


CPS = [1, 9, 0x1f, 0x20, 0x2f, 0x3a, 0x41, 0x5c, 0x7e, 0x7f, 0x80, 0xff, 0x7ff, 0x800, 0x20ac, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xfffe, 0xffff,
       0x10000, 0x1f600, 0xe0041, 0xfffff, 0x100000, 0x10ffff]


def model(ctx):
    def cfg(bs, n, v=""):
        return ("CONSTANTS Bytes = {%s} MaxLen = %d Variant = \"%s\"\nSPECIFICATION Spec\nINVARIANTS Agrees%s\nCHECK_DEADLOCK FALSE\n"
                % (", ".join(map(str, bs)), n, v, " Cuts Copies" if not v and n < 5 else " Cuts" if not v else ""))
    ctx.model_check("text/Utf8Laws", cfg(BOUND, ctx.q(3, 4)))
    ctx.model_check("text/Utf8Laws", cfg(SMALL, ctx.q(4, 5)))
    ctx.model_check("text/Utf8Enc", "CONSTANTS Step = %d Blocks = 64\nSPECIFICATION Spec\nINVARIANTS RoundTrip\nCHECK_DEADLOCK FALSE\n" % ctx.q(17, 1))
    ctx.refutes("text/Utf8Laws", ("overlong", "surrogate", "huge", "long"), lambda v: cfg([0x41, 0x80, 0xc0, 0xed, 0xa0, 0xf4, 0x90, 0xf8, 0x88], 5, v))


def strings(ctx, rng):
    """Byte strings: exhaustive over boundary bytes, mutated well-formed text."""
    out = [[]]
    for b in range(1, 256):
        out += [[b], [0x61, b], [b, 0x62]]
    for n in (2, 3):
        src = BOUND if n == 2 or ctx.thorough else [0x41, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xed, 0xee, 0xef, 0xf0, 0xf4,
                                                    0xf5]
        out += [list(t) for t in itertools.product(src, repeat=n)]
    cont = [0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0]
    for lead in (0xe0, 0xec, 0xed, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf7, 0xf8, 0xfc):
        for t in itertools.product(cont if ctx.thorough else cont[1:7], repeat=3):
            out.append([lead] + list(t))
    for lead in (0xf8, 0xfb, 0xfc, 0xfd):
        for t in ([0x80, 0x80, 0x80, 0x80], [0x88, 0x80, 0x80, 0x80], [0xbf] * 4, [0x84, 0x80, 0x80, 0x80, 0x80], [0x80] * 5, [0xbf] * 5):
            out.append([lead] + t)
    for c in CPS + [0xd800, 0xdbff, 0xdc00, 0xdfff, 0x110000, 0x13ffff, 0x1fffff]:
        out.append(enc(c))
        out.append([0x61] + enc(c) + [0x62])
    for _ in range(ctx.q(3000, 60000)):
        s = []
        for _ in range(rng.randint(1, 12)):
            s += enc(rng.choice(CPS) if rng.random() < .7 else rng.choice([rng.randrange(1, 0x80), rng.randrange(0x80, 0xd800), rng.randrange(0xe000, 0x110000)]))
        r = rng.random()
        if r < .4:
            i = rng.randrange(len(s))
            s[i] = rng.choice([rng.randrange(1, 256), max(1, s[i] ^ (1 << rng.randrange(8)))])
        elif r < .5:
            s = s[:rng.randrange(len(s)) + 1]
        elif r < .6:
            del s[rng.randrange(len(s))]
        out.append(s)
    for n in (300, 1000, 1023, 1024, 4096) if not ctx.thorough else (300, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 9000):
        s = []
        while len(s) < n:
            s += enc(rng.choice(CPS))
        out += [s, s + [0xc3], s + [0x61], s[:-1] + [0xff]]
    return out


def longs(ctx, rng):
    """Texts of many lengths: copies of a well-formed unit, then a tail; the sizes at which lengths outgrow a buffer or a type."""
    out = []
    tails = [[], [0x2a], [0x61], [0xc3], [0xff, 0x61], enc(0x1f600), enc(0x20ac) + [0x7a], [0x62, 0x63, 0x80]]
    for tgt in [4096, 5000, 8192, 16384, 32768, 65536, 70000, 131072] + ctx.q([], [200000, 262144, 1 << 20]):
        for _ in range(ctx.q(6, 40)):
            cs = [rng.choice(CPS) for _ in range(rng.choice([1, 1, 2, 3, 7]))]
            u = [x for c in cs for x in enc(c)]
            by = rng.random() < .5            # the size in bytes or in characters
            k = max(1, tgt // (len(u) if by else len(cs)) + rng.choice([-1, 0, 0, 1, 2]))
            out.append((cs, u, k, rng.choice(tails)))
        out.append(([0x61], [0x61], tgt + rng.choice([-1, 0, 1]), rng.choice(tails[1:])))
        out.append(([0x61], [0x61], tgt + rng.choice([1, 2, 3]), [0x2a]))
    return out


def drv(ctx):
    return ctx.exe("strdrv", ["strdrv.c"], lib=ctx.lib("std"), wraps=("malloc", "calloc"))


def short(r):
    s = json.dumps(r)
    return s if len(s) < 900 else s[:900] + "..."


def forb(rng):
    k = rng.random()
    if k < .25:
        return "0"
    if k < .35:
        return "-"
    if k < .5:
        return "X"      # the set the library offers
    return ",".join("%x" % c for c in rng.sample(CPS, rng.randint(1, 6)))


def nchars(s):
    return sum(1 for b in s if b & 0xc0 != 0x80)


def u01(ctx):
    model(ctx)
    rng = random.Random(ctx.seed * 7 + 1)
    lines = ["- 0 0 0 1 0", "- 0 0 - 0 0", "- 1 0 0 0 0", "- 0 1 0 0 0"]
    for s in strings(ctx, rng):
        n, w = len(s), nchars(s)
        lines.append("%s 0 0 0 0 0" % hx(s))
        mb = rng.choice([0, 0, n, n + 1, n + 2, 1, 2, max(1, n - 1), 1 << 40])
        mw = rng.choice([0, 0, w, w + 1, max(1, w - 1), 1, n, 1 << 40])
        f = forb(rng)
        if rng.random() < .3:
            f = rng.choice(["0", ",".join("%x" % c for c in rng.sample(CPS, 2))])
        lines.append("%s %d %d %s 0 %d" % (hx(s), mb, mw, f, rng.random() < .02))
    # every character against the library's own set
    for c in list(range(1, 256)) + [0x102f, 0x1003a, 0x2f2f, 0x122]:
        lines.append("%s 0 0 X 0 0" % hx([0x61] + enc(c) + [0x62]))
    # every character of a string in turn forbidden
    for s in ([0x61, 0x62, 0x63], [1, 0x1f600, 0x7ff, 0x10ffff, 0xe000, 0x41]):
        b = [x for c in s for x in enc(c)]
        for c in s + [0x64, 0x600, 0x1f601, 0xf600, 0x110000, 0x10041]:
            lines.append("%s 0 0 %x 0 0" % (hx(b), c))
            lines.append("%s %d %d %x,%x 0 0" % (hx(b), len(b) + 1, len(s), 0x7e, c))
        for mb in range(1, len(b) + 3):
            for mw in range(1, len(s) + 3):
                lines.append("%s %d %d %s 0 0" % (hx(b), mb, mw, "0"))
    lines = ["c " + l for l in lines]
    for cs, u, k, tail in longs(ctx, rng):
        n, w = k * len(u) + len(tail), k * len(cs) + nchars(tail)
        for f in ("0", "2a", "X", ",".join("%x" % c for c in rng.sample(CPS, 3))):
            lines.append("C %s %d %s %d %d %s" % (hx(u), k, hx(tail), rng.choice([0, 0, 0, n, n + 1, n + 2]), rng.choice([0, 0, 0, w - 1, w, w + 1]), f))
    rng.shuffle(lines)
    recs = ctx.drive(drv(ctx), lines, what="UTF-8 check")
    ctx.sample(short(recs[5]))
    ctx.judge("text/Utf8Trace", "", recs, "UTF-8 check", describe=short, shards=8)


def u02(ctx):
    model(ctx)
    rng = random.Random(ctx.seed * 11 + 5)
    lines = ["6162 8 0 5f 1 0", "6162 8 0 5f 2 0"]
    repls = [0x5f, 0x5f, 0x3f, 0x7f, 0x80, 0x7ff, 0x800, 0x20ac, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff]
    badrepl = [0xd800, 0xdfff, 0xdbff, 0x110000, 0x7fffffff, 0xffffffff, 0x80000000]
    for s in strings(ctx, rng):
        n = len(s)
        for _ in range(2):
            size = rng.choice([n + 1, n + 1, n + 2, n, max(0, n - 1), 2, 3, 4, 5, 6, 1, 0, n + 20, 4 * n + 1, rng.randrange(n + 3)])
            if size > 60000:
                size = 100
            lines.append("%s %d %s %x 0 %d" % (hx(s), size, forb(rng), rng.choice(repls) if rng.random() < .93 else rng.choice(badrepl),
                                                   rng.random() < .02))
    for _ in range(ctx.q(400, 6000)):
        cs = [rng.choice(CPS) for _ in range(rng.randint(1, 6))]
        b = [x for c in cs for x in enc(c)]
        f = ",".join("%x" % c for c in rng.sample(CPS, 9) + [cs[0]])
        r = rng.choice(repls)
        for size in range(0, min(len(b) + 12, 30)):
            lines.append("%s %d %s %x 0 0" % (hx(b), size, f, r))
    lines.append("%s 600 X 5f 0 0" % hx([x for c in range(1, 256) for x in enc(c)]))
    for c in list(range(1, 256)) + [0x102f, 0x1003a, 0x2f2f, 0x122]:
        lines.append("%s 20 X %x 0 0" % (hx([0x61] + enc(c) + [0x62]), rng.choice(repls)))
    for r in badrepl:
        for f in ("61", "62", "63", "7a", "0", "-"):
            for size in (2, 3, 4, 5, 6, 20):
                lines.append("616263 %d %s %x 0 0" % (size, f, r))
    lines = ["s " + l for l in lines]
    for cs, u, k, tail in longs(ctx, rng):
        for fs in ([], [0x2a], [cs[-1]], [cs[0], 0x7a]):
            r = rng.choice(repls)
            p = sum(len(enc(r if c in fs else c)) for c in cs)
            n = k * p + len(tail)
            size = rng.choice([n + 1, n + 9, n, n - 1, n - p, n // 2, k + 1, n + 300])
            lines.append("S %s %d %s %d %s %x %d" % (hx(u), k, hx(tail), max(2, size), ",".join("%x" % c for c in fs) or rng.choice(["0", "-"]), r, p))
    rng.shuffle(lines)
    recs = ctx.drive(drv(ctx), lines, what="UTF-8 sanitizing")
    ctx.sample(short(recs[5]))
    ctx.judge("text/Utf8Trace", "", recs, "UTF-8 sanitizing", describe=short, shards=8)


def c01(ctx):
    def cfg(al, n, v=""):
        return "CONSTANTS Alphabet = {%s} MaxLen = %d Variant = \"%s\"\nSPECIFICATION Spec\nINVARIANTS Agree NoSlash\nCHECK_DEADLOCK FALSE\n" % (al, n, v)
    ctx.model_check("text/PathsLaws", cfg("47, 46, 97", ctx.q(8, 11)))
    ctx.refute("text/PathsLaws", cfg("47, 97", 6, "squeeze"), "inner slashes merged")
    rng = random.Random(ctx.seed)
    e = ctx.exe("cppdrv", ["cppdrv.cpp"], lib=ctx.lib("std", with_cpp=True))
    lines = []
    for n in range(0, ctx.q(8, 10)):
        for t in itertools.product([47, 46, 97], repeat=n):
            if n < 6:
                lines.append("low %s -" % hx(t))
            lines.append("dir %s -" % hx(t))
            lines.append("base %s -" % hx(t))
    comps = ["", "a", "..", ".", "foo.txt", "lib64", ".hidden", "a b", "\xe9t\xe9", "\xff", "...", "x" * 255, "y" * 300, "c:\\d", "\n"]
    for _ in range(ctx.q(2500, 40000)):
        p = "/".join(rng.choice(comps) for _ in range(rng.randint(1, 8)))
        p = "/" * rng.choice([0, 0, 1, 2, 3]) + p + "/" * rng.choice([0, 0, 1, 2])
        b = list(p.encode("latin1"))
        lines += ["dir %s -" % hx(b), "base %s -" % hx(b)]
    for n in (1000, 4095, 4096, 4097, 5000):
        lines += ["%s %s -" % (k, hx(list((u * n).encode())[:n])) for k in ("dir", "base") for u in ("a", "a/", "/", "ab/c//", "abc/../")]
    al = [0x61, 0x62, 0]
    for n in range(0, 5):
        for m in range(0, 4):
            for a in itertools.product(al, repeat=n):
                if n == 4 and rng.random() > ctx.q(.4, 1):
                    continue
                for b in itertools.product(al, repeat=m):
                    if rng.random() < ctx.q(.5, 1):
                        lines.append("%s %s %s" % (rng.choice(["pre", "suf"]), hx(a), hx(b)))
    for _ in range(ctx.q(3000, 40000)):
        a = [rng.choice([0, 0x61, 0x62, 0x80, 0xff, 0x41, rng.randrange(256)]) for _ in range(rng.randint(0, 40))]
        i = rng.randint(0, len(a))
        for k, b in (("pre", a[:i]), ("suf", a[i:])):
            b = list(b)
            r = rng.random()
            if b and r < .3:
                j = rng.choice([0, len(b) - 1, rng.randrange(len(b))])
                b[j] = rng.choice([b[j] ^ 0x20, b[j] ^ 1, b[j] ^ 0x80, 0])
            elif r < .4:
                b = b + [0x61] if k == "pre" else [0x61] + b
            elif r < .45:
                b = a + [rng.choice([0, 0x61])] if k == "pre" else [rng.choice([0, 0x61])] + a
            lines.append("%s %s %s" % (k, hx(a), hx(b)))
        lines.append("low %s -" % hx(a))
    for c in range(256):
        lines.append("low %s -" % hx([c]))
        lines.append("low %s -" % hx([0x41, c, 0x5a]))
    recs = ctx.drive(e, lines, what="C++ helpers", env={"LC_ALL": "C"})
    ctx.sample(short(recs[5]))
    ctx.judge("text/TextTrace", "", recs, "C++ helper", describe=short, shards=8)
