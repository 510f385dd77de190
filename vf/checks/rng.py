"""R01..R06: random numbers, against specs/random."""
import concurrent.futures
import json
import os
import random

from .. import core
from ..core import CheckError, Violation

RESEED = """CONSTANTS a = a b = b c = c k = k
CONSTANTS Threads = {%s} Kids = {%s} MaxOps = %d Mod = %d Variant = "%s"
SPECIFICATION Spec
INVARIANTS Derived OwnSource
SYMMETRY Sym
CHECK_DEADLOCK FALSE
"""
SCHED_WRAPS = ("getrandom", "getentropy", "open", "open64", "read", "close", "pthread_mutex_lock")


PORT = ("-include", os.path.join(core.HARN, "stub-port", "noglibc.h"))


def portlib(ctx, *flags):
    """The library as it is built without glibc: no getrandom(), thread-specific data instead of __thread."""
    return ctx.lib("port" + "".join(flags), cflags=(*(flags or ("-O1",)), *PORT))


def r04(ctx):
    ctx.model_check("random/Reseed", RESEED % ("a, b, c", "k", 4, 1000, ""))
    ctx.model_check("random/Reseed", RESEED % ("a, b", "k", ctx.q(5, 6), 1000, ""))
    if ctx.thorough:
        ctx.model_check("random/Reseed", RESEED % ("a, b, c", "k", 5, 1000, ""), timeout=800)
    ctx.refutes("random/Reseed", ("late", "split", "swap", "own", "keep"), lambda v: RESEED % ("a, b, c", "", 5, 1000, v))
    ctx.refute("random/Reseed", RESEED % ("a, b", "k", 5, 4, ""), "era wraps within two reseeds")
    lib = ctx.lib("tsan", cflags=("-O1", "-fsanitize=thread", "-U_FORTIFY_SOURCE"))
    e = ctx.exe("rngsched", ["rngsched.c"], lib=lib, wraps=SCHED_WRAPS)
    progs = [("grg/gg", 3), ("gr/grg", 3), ("grg/grg", 2), ("gr/gr/gg", 2), ("grg/gg/g", 2), ("grg/gxg/g", 1),
             ("gxg", 1), ("rrgrg", 1), ("gr/f(grg)g/g", 1), ("ggf(gg)g/rg", 1), ("grf(g)/f(rg)g", 1), ("rf(g)g/g", 2),
             ("gggrggg/ggrgg", 1), ("g/g/g/g", 1), ("rg/rg/rg/gg", 1)]
    for n in (2, 3, 64, 127, 128, 129, 255, 256, 257, 32768, 65536) + ((1 << 20, 1 << 24) if ctx.thorough else ()):
        progs.append(("gm%dg/gg" % n, 1))
        progs.append(("gm%d/grg" % n, 0))
        progs.append(("gg/m%d" % n, 1))
    rng = random.Random(ctx.seed)
    for _ in range(ctx.q(12, 200)):
        n = rng.choice([2, 2, 3])
        p = "/".join("".join(rng.choice("ggrrx" if rng.random() < .3 else "ggr") for _ in range(rng.randint(1, 4 if n == 2 else 3)))
                     for _ in range(n))
        progs.append((p, ctx.q(1, 2)))
    progs = [(p, b, 0) for p, b in progs]
    # more switches between fewer places
    progs += [("r/rr/gg", 13, 0), ("rr/r/gg", 13, 0), ("r/r/gg/g", 12, 0)] + ([("gr/rrg/gg", 13, 0), ("rr/rr/gg", 13, 0)] if ctx.thorough else [])
    # every function of the generator takes part; those that draw again alone
    for fn in range(1, 28):
        for p in ("grg", "rgrgg", "gxg", "ggrf(grg)g", "gm3g"):
            progs.append((p, 0, fn))
        if fn < 15:
            progs.append(("grg/g", 1, fn))
    lines = ["%d %d %d %d %d %s %d\n" % (i, (i % 5 == 4) + b // 10 * 2, ctx.seed * 1000 + i, b % 10 + (1 if ctx.thorough else 0),
                                         6000 if b > 9 and not ctx.thorough else ctx.q(700, 20000), p, fn)
             for i, (p, b, fn) in enumerate(progs)]

    # the same programs where every thread's state is allocated
    ep = ctx.exe("rngsched-port", ["rngsched.c"], lib=portlib(ctx, "-O1", "-fsanitize=thread", "-U_FORTIFY_SOURCE"), wraps=SCHED_WRAPS)
    jobs = [(e, l) for l in lines] + [(ep, l) for i, l in enumerate(lines) if i % 3 == 0 or ctx.thorough]

    def one(j):
        return ctx.run([j[0]], input=j[1], timeout=700, what="generator schedules")[1]
    recs, execs = [], 0
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for (x, l), out in zip(jobs, ex.map(one, jobs)):
            end = False
            for t in out.splitlines():
                r = json.loads(t)
                if "end" in r:
                    execs += r["ex"]
                    end = True
                else:
                    r["prog"] = l.split()[5] + (" (port)" if x is ep else "")
                    recs.append(r)
            if not end:
                raise CheckError("schedules of %s were not completed" % l)
    ctx.evals += execs
    ctx.extra["schedules"] = execs
    ctx.sample(recs[3])
    ctx.log("%d schedules run, %d distinct histories" % (execs, len(recs)))
    ctx.judge("random/ReseedTrace", "", recs, "outputs after a reseed", shards=8, describe=lambda r: json.dumps(r)[:900])


DRV_WRAPS = ("getrandom", "getentropy", "malloc", "calloc")


def driver(ctx):
    return ctx.exe("rngdrv", ["rngdrv.c"], lib=ctx.lib("std"), wraps=DRV_WRAPS)


def short(r):
    s = json.dumps(r)
    return s if len(s) < 1000 else s[:1000] + "..."


def go(ctx, lines, what, extra=None, shards=None, spec="random/RandTrace"):
    recs = ctx.drive(driver(ctx), ["%s %d %s" % (k, ctx.seed * 100003 + i, rest) for i, (k, rest) in enumerate(lines)],
                     what="random driver", timeout=700)
    if extra:
        for r, x in zip(recs, extra):
            r.update(x)
    ctx.sample(short(recs[0]))
    ctx.sample(short(recs[len(recs) // 2]))
    ctx.judge(spec, "", recs, what, describe=short, shards=shards or 8)
    return recs


def r01(ctx):
    cfg = "CONSTANTS W = %d G = %d Variant = \"%s\"\nSPECIFICATION Spec\nINVARIANTS InRange Even Progress\nCHECK_DEADLOCK FALSE\n"
    ctx.model_check("random/Bounded", cfg % (ctx.q(5, 7), 2, ""))
    ctx.model_check("random/Bounded", cfg % (ctx.q(6, 7), 3, ""))
    ctx.refutes("random/Bounded", ("modulo", "scale", "clamp", "strict", "mask", "short"), lambda v: cfg % (6, 2, v))
    lines = [("nul", "")]
    per = ctx.q(800, 4000)
    for m in range(256):
        lines.append(("bnd", "8 %x %d %d" % (m, (m + 1) * per, m % 2)))
    rng = random.Random(ctx.seed)
    for w in (16, 32, 64):
        top = (1 << w) - 1
        ms = {top, top - 1, 3 << (w - 2), (3 << (w - 2)) - 1, (5 << (w - 3)), top // 3, top // 5 * 3, 0}
        for b in range(1, w):
            ms |= {(1 << b) - 2, (1 << b) - 1, 1 << b, (1 << b) + 1, (3 << b) >> 1, (11 << b) >> 3}
        ms |= {rng.getrandbits(w) >> rng.randrange(w) for _ in range(ctx.q(60, 1500))}
        ms |= set(range(ctx.q(20, 600)))
        for m in sorted(x for x in ms if 0 <= x <= top):
            lines.append(("bnd", "%d %x %d %d" % (w, m, (m + 1) * per // 4 if m < 4096 else ctx.q(20000, 200000), m % 2)))
    for w in (16, 32, 64):
        for b in range(16, w + 1, 8):      # scaling b raw bits to (nearly) q / (q + 1) of their range would favour residues modulo q
            for q in (3, 5, 7, 9, 11, 13, 15):
                m = (q << b) // (q + 1)
                for d in (-1, 0) if b > 16 else (-1,):
                    lines.append(("odd", "%d %x %d %d" % (w, m + d, ctx.q(60000 if b > 16 else 9000, 200000), q % 2)))
    for w in (8, 16, 32, 64):              # bits of one value, and of two in a row
        for b in range(3 if w == 8 else 9, w + 1):
            if not ctx.thorough and w == 64 and b < 32 and b % 4:
                continue
            lines.append(("pair", "%d %x %d %d" % (w, (1 << b) - 1, ctx.q(2500, 40000), b % 2)))
            if b > 12 and (b % 8 == 3 or ctx.thorough):
                lines.append(("pair", "%d %x %d %d" % (w, (11 << b) >> 4, ctx.q(2500, 40000), b % 2)))
    lines += [("pair", "1 %x %d 0" % ((1 << 24) - 1, ctx.q(5000, 40000))), ("pair", "2 %x %d 0" % ((1 << 53) - 1, ctx.q(5000, 40000)))]
    for f in "df":
        for _ in range(3):
            lines.append(("unit", "%s %d" % (f, ctx.q(20000, 200000))))
    order = list(range(len(lines)))
    rng.shuffle(order)
    go(ctx, [lines[i] for i in order], "bounded random values")


def r02(ctx):
    cfg = ("CONSTANTS B = %d C = %d GB = %d GC = %d MaxCount = %d Shift = %d MaskHigh = %s\nSPECIFICATION Spec\n"
           "INVARIANTS Classes Complete Reached\n")
    ctx.model_check("random/RandTextLaws", cfg % (4, 3, 3, 4, 3, 3, "FALSE"))
    ctx.model_check("random/RandTextLaws", cfg % (3, 2, 2, 3, 4, 2, "FALSE"))
    ctx.model_check("random/RandTextLaws", cfg % (8, 6, 3, 4, ctx.q(1, 2), 6, "FALSE"))
    ctx.refute("random/RandTextLaws", cfg % (4, 3, 3, 4, 3, 2, "FALSE"), "characters share bits")
    ctx.refute("random/RandTextLaws", cfg % (4, 3, 3, 4, 3, 3, "TRUE"), "wrong bits of the last character")
    rng = random.Random(ctx.seed)
    lines = []

    def hx(s):
        return "".join("%02x" % c for c in s) or "-"
    safe = [c for c in range(1, 256) if c not in (3, 0xa7)]
    alphas = [[97], [97, 98], list(b"abc"), list(b"0123456789"), safe, safe[:128], list(b"aab"), [255, 254, 1], safe + safe[:40],
              list(b"ab") + safe[5:8] + list(b"b") * 295, safe + list(b"zz") * 120]
    full = {"b16": lambda c: 2 * c, "b32": lambda c: (c + 4) // 5 * 8, "b64": lambda c: (c + 2) // 3 * 4}
    for c in range(ctx.q(26, 60)):
        for f in full:
            n = full[f](c)
            ls = set(range(0, n + 4)) if c < 12 or ctx.thorough else {0, 1, n - 1, n, n + 1, n + 2, rng.randrange(n + 3)}
            for l in ls:
                lines.append(("txt", "%s %d %d -" % (f, c, l)))
        a = alphas[c % len(alphas)]
        for l in range(0, c + 3):
            lines.append(("txt", "str %d %d %s" % (c, l, hx(a))))
    for c, l in ((5, 0), (5, 1), (5, 9), (0, 3), (0, 0), (1, 2)):
        lines.append(("txt", "str %d %d -" % (c, l)))
    big = (1 << 31) - 1
    for c in (big, big + 1, big - 1, big // 2, big // 2 + 1, 1 << 32, (1 << 32) + 5, (1 << 40), 1 << 46, big // 8 * 5, big // 8 * 5 + 1,
              big // 8 * 5 + 5, big // 8 * 5 - 5, big // 4 * 3, big // 4 * 3 + 1, big // 4 * 3 - 3, big // 4 * 3 + 3, (1 << 31) // 5 * 5):
        for f in ("b16", "b32", "b64", "str"):
            for l in (0, 1, 9, 33):
                lines.append(("txt", "%s %d %d %s" % (f, c, l, "616263" if f == "str" else "-")))
    for c in (700, 1500, 4001):
        for f in ("b16", "b32", "b64", "str"):
            n = full.get(f, lambda c: c)(c)
            for l in (n + 1, n, n - 3, n + 50):
                lines.append(("txt", "%s %d %d %s" % (f, c, l, "616263" if f == "str" else "-")))
    go(ctx, lines, "random text")
    lines = []
    n = ctx.q(20000, 100000)
    for c in range(1, 12):
        lines.append(("tst", "b32 %d %d -" % (c, 41000 if c < 6 else n)))
    for c in range(1, 8):
        lines.append(("tst", "b64 %d %d -" % (c, 164000 if c < 4 else n)))
    for c in (1, 2, 3, 7, 8, 9, 12):
        lines.append(("tst", "b16 %d %d -" % (c, n)))
    for a in alphas:
        lines.append(("tst", "str %d %d %s" % (rng.choice([1, 2, 3, 5]), max(n // 2, len(a) * 500) if len(a) < 250 else 160000, hx(a))))
    go(ctx, lines, "distribution of random text", shards=8)


def r03(ctx):
    cfg = "CONSTANTS N = %d Variant = \"%s\"\nSPECIFICATION Spec\nINVARIANTS Permutation Even\nCHECK_DEADLOCK FALSE\n"
    ctx.model_check("random/Shuffle", cfg % (ctx.q(4, 5), ""))
    ctx.refutes("random/Shuffle", ("self", "full", "short"), lambda v: cfg % (4, v))
    lines = []
    rng = random.Random(ctx.seed)
    for n in list(range(0, 12)) + [31, 32, 33, 100, 255, 256]:
        for size in list(range(0, 20)) + [31, 32, 33, 40, 63, 64, 65, 100, 128, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 4095, 4096, 4097]:
            if n > 40 and size > 20 and rng.random() > ctx.q(.2, 1):
                continue
            for rep in range(ctx.q(1, 4)):
                lines.append(("shf", "%d %d 0 0" % (n, size)))
            if n in (0, 2, 5) or rng.random() < .2:
                lines.append(("shf", "%d %d 1 0" % (n, size)))
                lines.append(("shf", "%d %d 0 1" % (n, size)))
    for n, size in ((257, 2), (1000, 2), (5000, 4), (65535, 3), (65536, 3), (65537, 3), (70000, 4), (70000, 9), (300, 2), (4096, 8)):
        lines.append(("shf", "%d %d 0 0" % (n, size)))
    go(ctx, lines, "shuffle")
    lines = []
    d = ctx.q(400, 3000)
    for n, f in ((2, 2), (3, 6), (4, 24), (5, 120), (6, 720)):
        for size in (1, 3, 4, 8, 9, 17):
            lines.append(("shs", "%d %d %d" % (n, size, f * d)))
    for n in (7, 8, 10, 16, 17, 24, 31, 32):
        for size in (1, 7, 8, 12):
            lines.append(("shs", "%d %d %d" % (n, size, n * d * 4)))
    for n, size, k in ((256, 1, 400), (264, 2, 400), (512, 4, 300), (65536, 3, 6), (72000, 4, 6), (131072, 4, 4)):
        lines.append(("shs", "%d %d %d" % (n, size, k)))
    go(ctx, lines, "evenness of the shuffle")


def r06(ctx):
    ctx.memory = 16 << 30        # one request of gigabytes
    cfg = ("CONSTANTS N = %d K = %d Blk = %d MaxLen = %d MaxReq = %d Variant = \"%s\"\nSPECIFICATION Spec\n"
           "INVARIANTS Fresh Sane %s\nCHECK_DEADLOCK FALSE\n")
    ctx.model_check("random/Pool", cfg % (6, 2, 3, 7, ctx.q(4, 6), "", "Wiped"))
    ctx.model_check("random/Pool", cfg % (5, 1, 2, 6, ctx.q(4, 6), "", "Wiped"))
    ctx.refutes("random/Pool", ("partial", "keykept", "frontkey", "stirkept", "thresh"), lambda v: cfg % (6, 2, 3, 7, 5, v, ""))
    ctx.refute("random/Pool", cfg % (6, 2, 3, 7, 4, "nowipe", "Wiped"), "nowipe")
    rng = random.Random(ctx.seed)
    seqs = []
    step = ctx.q(7, 1)
    for a in range(0, 540, step):
        # a state of the buffer, then a request around every limit
        seqs.append([a, rng.choice([0, 1, 7, 39, 40, 41, 63, 64, 65, 127, 128, 400, 470, 471, 472, 473, 474, 511, 512, 513, 600]),
                     rng.randrange(0, 700), "w8", 16])
        seqs.append([a, 512 - 40 - (a % 472), 33, rng.randrange(0, 520), 20])
    for n in (471, 472, 473, 511, 512, 513, 64, 40, 8, 1, 3, 127, 128, 129, 255, 256, 257):
        seqs.append([n] * (1500 // n + 2))
    for n in list(range(440, 560)) + list(range(0, 140, 3)):
        seqs.append([rng.randrange(0, 500), n, n, 9])
    for w in (8, 16, 32, 64):
        seqs.append(["w%d" % w] * (8 * 1200 // w))
        seqs.append(["p%d" % w] * (8 * 700 // w))
        for off in range(0, 24):
            seqs.append([450 + off] + ["w%d" % w] * 12 + [30])
    for _ in range(ctx.q(120, 2500)):
        s, tot = [], 0
        while tot < ctx.q(1500, 3000):
            x = rng.choice(["w8", "w16", "w32", "w64", "p8", "p16", "p32", "p64", 0, rng.randrange(64), rng.randrange(64), rng.randrange(520),
                            rng.choice([39, 40, 41, 471, 472, 473, 511, 512, 513]), rng.randrange(1400)])
            if isinstance(x, int) and x and rng.random() < .3:
                x = "b%d" % x
            s.append(x)
            tot += int(str(x).strip("wpb")) // (8 if str(x)[0] in "wp" else 1)
        seqs.append(s)
    lines, extra = [], []
    for s in seqs:
        lines.append(("seq", ",".join(map(str, s))))
        extra.append({"req": [int(str(x)[1:]) // 8 if str(x)[0] in "wp" else int(str(x).strip("b")) for x in s]})
    for n in (5000, 70000, 300000, 5000001, 17000000) + ((20000000, 23000000) if ctx.thorough else ()):
        for pre in (0, 1, 100, 471):
            lines.append(("big", "%d %d" % (n, pre)))
            extra.append({})
    for a in range(0, 1100 if ctx.thorough else 540):
        for pre in (8, 471, rng.randrange(9, 600)):
            lines.append(("seam", "%d %d %d 8" % (pre, a, rng.choice([1, 2, 7, 8, 9, 40, 64, 471, 472]))))
            extra.append({})
    for n in ((1 << 32) + 1000,) + (((1 << 31) + 1000, (1 << 33) + 700) if ctx.thorough else ()):
        lines.insert(0, ("huge", "%d" % n))
        extra.insert(0, {})
    for _ in range(3):
        lines.append(("bits", "2000"))
        extra.append({})
    go(ctx, lines, "generator output", extra)


def r05(ctx):
    ctx.memory = 16 << 30
    cfg = "CONSTANTS Len = %d MaxIntr = %d Variant = \"%s\"\nSPECIFICATION Spec\nINVARIANTS Complete NoLeak Within\nPROPERTIES Ends\nCHECK_DEADLOCK FALSE\n"
    ctx.model_check("random/Strong", cfg % (ctx.q(6, 12), 3, ""))
    ctx.refutes("random/Strong", ("oneshot", "intrcount", "openok", "eofok", "leak", "noadvance"), lambda v: cfg % (4, 2, v))
    e = ctx.exe("entdrv", ["entdrv.c", "sysmon.c"], lib=ctx.lib("std"))
    rng = random.Random(ctx.seed)
    lens = [1, 2, 3, 7, 8, 16, 31, 32, 33, 40, 63, 64, 65, 100, 128, 255, 256, 257, 300]
    lines = []
    ENOSYS, EAGAIN, EINTR, EPERM, EIO, EINVAL, EMFILE, ENOENT, EFAULT = 38, 11, 4, 1, 5, 22, 24, 2, 14

    def add(n, *faults, nul=0):
        lines.append("%d %d %d %s" % (n, nul | (2 if rng.random() < .3 else 0), len(faults), " ".join("%s %d %d %s" % f for f in faults)))
    add(5, nul=1)
    add(0, nul=1)
    add(0)
    for n in lens + [512, 1000, 4096, 5000]:
        add(n)
    nosys = ("g", 0, 1, "e%d" % ENOSYS)
    for n in lens:
        for er in (ENOSYS, EAGAIN, EPERM, EIO, EINVAL, EFAULT):
            add(n, ("g", 0, 1, "e%d" % er))
        add(n, ("g", 0, 1, "z"))
        for d in (2, 3, 10, 1000):
            add(n, ("g", 0, 1, "s%d" % d))
            add(n, ("g", 0, 0, "s%d" % d))
            add(n, nosys, ("r", 0, 1, "s%d" % d))
            add(n, nosys, ("r", 0, 0, "s%d" % d))
            for k in (1, 2, 3):
                add(n, ("g", 0, 1, "s%d" % d), ("g", k, 0, "e%d" % EINTR))
                add(n, ("g", 0, 0, "s%d" % d), ("g", k, 1, "e%d" % ENOSYS))
                add(n, ("g", 0, 0, "s%d" % d), ("g", k, 1, "z"))
                add(n, nosys, ("r", 0, 1, "s%d" % d), ("r", k, 0, "e%d" % EINTR))
                add(n, nosys, ("r", 0, 1, "s%d" % d), ("r", k, 0, "e%d" % EIO))
                add(n, nosys, ("r", 0, 1, "s%d" % d), ("r", k, 1, "z"))
        for k in (0, 1, 2):
            add(n, ("g", 0, 0, "e%d" % EINTR), ("g", 1, 0, "e%d" % EINTR), ("g", 2 + k, 0, "e%d" % EINTR))
            add(n, nosys, ("r", k, 0, "e%d" % EINTR), ("r", 1, 0, "e%d" % EINTR))
        for er in (EMFILE, ENOENT, EPERM):
            add(n, nosys, ("o", 0, 1, "e%d" % er))
            add(n, ("g", 0, 0, "s2"), ("g", 1, 1, "e%d" % ENOSYS), ("o", 0, 1, "e%d" % er))
        for er in (EIO, EAGAIN, EINVAL):
            add(n, nosys, ("r", 0, 1, "e%d" % er))
        add(n, nosys, ("r", 0, 1, "z"))
        add(n, nosys, ("c", 0, 1, "e%d" % EIO))
    for _ in range(ctx.q(1500, 30000)):
        fs = []
        for _ in range(rng.randint(1, 5)):
            k = rng.choice("ggggrrrroc")
            w = rng.choice({"g": ["e38", "e11", "e4", "e1", "s2", "s3", "s7", "s100", "z"], "r": ["e4", "e4", "e5", "e11", "s2", "s5", "s50", "z"],
                            "o": ["e24", "e2", "e4"], "c": ["e4", "e5"]}[k])
            fs.append((k, rng.randrange(5), int(rng.random() < .3 and w != "e4"), w))
        if rng.random() < .5:
            fs = fs[:4] + [nosys if rng.random() < .5 else ("g", rng.randrange(4), 1, "e38")]
        add(rng.choice(lens), *fs)
    # requests of any size: beyond what one system call gives, beyond 31 and 32 bits
    for n in (33554431, 33554432, 33554433, 67108864 + 5, 100000000, (1 << 31) - 1, (1 << 31), (1 << 31) + 5, 1 << 32, (1 << 32) + 7, 5 << 30):
        for cap in (33554431, 0x7ffff000, 1 << 20, (1 << 25) - 7):
            for dev in (0, 1):
                lines.append("big %d %d %d" % (n, cap, dev))
    ep = ctx.exe("entdrv-port", ["entdrv.c", "sysmon.c"], lib=portlib(ctx))
    recs = ctx.drive(e, lines, what="strong random driver")
    port = [l for l in lines if " g " not in l or rng.random() < ctx.q(.2, 1)]
    recs += ctx.drive(ep, port, what="strong random driver (no getrandom)")
    for r, l in zip(recs, lines + [l + " (port)" for l in port]):
        r["faults"] = l
    ctx.sample(short(recs[40]))
    ctx.judge("random/StrongTrace", "", recs, "strong random", describe=short, shards=8)


def r07(ctx):
    cfg = ("CONSTANTS K = %d MaxOps = %d MaxIntr = %d Variant = \"%s\"\nSPECIFICATION Spec\nINVARIANTS Whole OneFetch\n"
           "PROPERTIES Current %s\nCHECK_DEADLOCK FALSE\n")
    ctx.model_check("random/Seeding", cfg % (ctx.q(3, 5), ctx.q(5, 7), 2, "", "Ends"))
    ctx.refutes("random/Seeding", ("short", "noadvance", "silent", "early", "lateera"), lambda v: cfg % (3, 5, 1, v, ""))
    e = ctx.exe("seeddrv", ["seeddrv.c", "sysmon.c"], lib=ctx.lib("std"))
    rng = random.Random(ctx.seed)
    lines = []

    def add(prog, *faults):
        lines.append("%s %d %s" % (prog, len(faults), " ".join("%s %d %d %s" % f for f in faults)))
    nosys = ("g", 0, 1, "e38")
    for p in ("g", "w", "G", "rg", "grg", "grrg", "gGwrGg", "rrgrrwg", "gFrg", "gGFrGg", "rgFrrwrg"):
        add(p)
        add(p, nosys)
        for d in (2, 3, 7, 39, 1000):
            add(p, ("g", 0, 1, "s%d" % d))
            add(p, nosys, ("r", 0, 1, "s%d" % d))
        # entropy is gone from the k-th request on, in this or that way
        for k in range(4):
            for how in ("e38", "e11", "e1", "z", "e5"):
                for dev in (("o", 0, 1, "e2"), ("o", 0, 1, "e24"), ("r", 0, 1, "e5"), ("r", 0, 1, "z"), ("r", 0, 1, "e11")):
                    if rng.random() < ctx.q(.35, 1):
                        add(p, ("g", k, 1, how), dev)
            # a piece arrives, then nothing
            for d in (2, 5, 40):
                add(p, ("g", 2 * k, 0, "s%d" % d), ("g", 2 * k + 1, 1, "e38"), ("o", 0, 1, "e2"))
                add(p, ("g", k, 1, "e38"), ("r", k, 0, "s%d" % d), ("r", k + 1, 1, "e5"))
                add(p, ("g", k, 1, "e38"), ("r", k, 0, "s%d" % d), ("r", k + 1, 1, "z"))
            # it fails once and works again
            for dev in (("o", 0, 0, "e24"), ("r", 0, 0, "e5"), ("r", 0, 0, "z"), ("o", 1, 0, "e2"), ("r", 1, 0, "e5")):
                add(p, ("g", k, 0, "e38"), dev)
                add(p, ("g", 0, 1, "e38"), dev)
    for _ in range(ctx.q(150, 3000)):
        fs = []
        for _ in range(rng.randint(1, 4)):
            k = rng.choice("gggrrroc")
            w = rng.choice({"g": ["e38", "e11", "e4", "e1", "s2", "s3", "s7", "z"], "r": ["e4", "e4", "e5", "e11", "s2", "s5", "s50", "z"],
                            "o": ["e24", "e2", "e4"], "c": ["e4", "e5"]}[k])
            fs.append((k, rng.randrange(5), int(rng.random() < .3 and w != "e4"), w))
        if rng.random() < .5:
            fs.append(nosys)
        add("".join(rng.choice("ggwGrr") for _ in range(rng.randint(1, 5))), *fs)
    ep = ctx.exe("seeddrv-port", ["seeddrv.c", "sysmon.c"], lib=portlib(ctx))
    recs = ctx.drive(e, lines, what="seeding driver", timeout=800)
    port = [l for l in lines if " g " not in l or rng.random() < ctx.q(.15, 1)]
    recs += ctx.drive(ep, port, what="seeding driver (no getrandom)", timeout=800)
    for r, l in zip(recs, lines + [l + " (port)" for l in port]):
        r["faults"] = l
    ended = sum(r["st"] != 0 for r in recs)
    refused = sum(any(o["op"] == "r" and o["ret"] < 0 for o in r["ops"]) for r in recs)
    if not ended or not refused:
        ctx.log("no request without entropy was seen")
    ctx.extra.update(processes_ended=ended, reseeds_refused=refused, entropy_bytes=sum(r["ops"][-1]["b"] for r in recs if r["ops"]))
    ctx.sample(short(recs[7]))
    ctx.judge("random/SeedTrace", "", recs, "seeding", describe=short, shards=8)


def r08(ctx):
    cfg = ("CONSTANTS N = %d K = %d Blk = %d MaxLen = %d MaxReq = %d Variant = \"%s\"\nSPECIFICATION Spec\n"
           "INVARIANTS %s\nCHECK_DEADLOCK FALSE\n")
    ctx.model_check("random/Pool", cfg % (6, 2, 3, 7, ctx.q(4, 6), "", "Wiped Unrec"))
    ctx.model_check("random/Pool", cfg % (5, 1, 2, 6, ctx.q(4, 6), "", "Wiped Unrec"))
    for v in ("nokey", "partial"):
        ctx.refute("random/Pool", cfg % (6, 2, 3, 7, 4, v, "Unrec"), v)
    for v in ("nowipe", "keykept", "stirkept"):
        ctx.refute("random/Pool", cfg % (6, 2, 3, 7, 4, v, "Wiped"), v)
    wraps = ("getrandom", "getentropy", "open", "open64", "read")
    # what an optimizer makes of the erasures counts
    es = [ctx.exe("erasedrv" + n, ["erasedrv.c"], lib=l, wraps=wraps) for n, l in (
        ("", ctx.lib("std")), ("-O3", ctx.lib("gccO3", cflags=("-O3",))), ("-clang", ctx.lib("clangO3", cflags=("-O3",), cc="clang")),
        ("-port", portlib(ctx, "-O2")))]
    rng = random.Random(ctx.seed)
    progs = ["g16", "g1,g1", "r,g16", "g0,g16", "g511", "g512", "g513", "g467,g467", "g468,g468", "g469,g1", "g1,g511,g1,g600,g16",
             "q,q,q,q", "d,d,d,d,d,d", "w,w,w,w,w,w,w,w,w", "b,b,b,b,b,b,b,b,b,b,b,b,b,b,b,b,b", "m9,m3", "t5,t200,t20", "r,r,g9,r,g9,r,g600",
             "g40,Tg40,q,q,g600,Tg40,r,Tg9,g9,Tg9", "Tg16,r,Tg16,r,Tg16", "Tg467,g467,Tg3"]
    # the buffer in every state, then requests around every limit
    for a in list(range(0, 470, ctx.q(31, 3))) + [467, 466, 424, 423]:
        progs.append("g%d,%s" % (a, ",".join("g%d" % rng.choice([1, 8, 20, 43, 44, 45, 64, 100, 423, 424, 425, 466, 467, 468, 469, 511, 512, 513,
                                                                    575, 576, 577, 1000, 3000]) for _ in range(5))))
    for _ in range(ctx.q(60, 1500)):
        p, th = [], 0
        for _ in range(rng.randint(3, 14)):
            k = rng.choice("ggggggbwdqmtr")
            n = rng.choice([0, 1, 2, 7, 8, 9, 16, 44, rng.randrange(470), rng.randrange(470), rng.randrange(600), rng.randrange(2000)]) if k == "g" \
                else rng.randint(1, 40) if k in "mt" else None
            t = k + ("" if n is None else str(n))
            if rng.random() < .08 and th < 6:
                t, th = "T" + t, th + 1
            p.append(t)
        progs.append(",".join(p))
    lines = ["%d %s" % (ctx.seed * 1000 + i, p) for i, p in enumerate(progs)]
    recs = []
    for i, e in enumerate(es):
        recs += ctx.drive(e, lines if i == 0 or ctx.thorough else lines[:20] + lines[20 + i::4], what="memory scans", timeout=800)
    tried = sum(r["tried"] for r in recs)
    if not tried:
        ctx.log("nothing in memory looked like a key")
    ctx.extra.update(operations=sum(len(r["ops"]) for r in recs), mebibytes_scanned=sum(r["scanned"] for r in recs) // 1024, keys_tried=tried)
    ctx.sample(short(recs[3]))
    ctx.judge("random/EraseTrace", "", recs, "what was handed out, in memory", describe=short, shards=8)


def r09(ctx):
    cfg = "CONSTANTS Rounds = %d Low = %d Variant = \"%s\"\nSPECIFICATION Spec\nINVARIANTS Diffuses\nPROPERTIES Ends\nCHECK_DEADLOCK FALSE\n"
    for n in range(3, ctx.q(7, 11)):
        ctx.model_check("random/Diffusion", cfg % (n, 128 if n < 4 else 170, ""))
    ctx.refutes("random/Diffusion", ("few", "columns", "linear", "dropped", "cut"), lambda v: cfg % (5, 1, v))
    lines = []
    rng = random.Random(ctx.seed)
    shapes = ["1024", "r1024", "2048", "r64,960", ",".join(["16"] * 64), "r" + ",".join(["w64"] * 80), ",".join(["w32"] * 160),
              ",".join(["64"] * 16), "40,40,40,40,40,40,16", "r472,40", "473,39", "r511,1", "1,511", "512,64"]
    for _ in range(ctx.q(10, 60)):
        p, left = [], rng.choice([640, 1024, 1536])
        while left:
            n = min(left, rng.choice([1, 3, 8, 16, 40, 64, 100, 300, 471, 512, 700]))
            p.append(str(n))
            left -= n
        shapes.append(rng.choice(["", "r"]) + ",".join(p))
    lines = [("dif", "%d %s" % (ctx.q(24, 120), s)) for s in shapes]
    go(ctx, lines, "influence of the seed's bits")
    lines = []
    for a in range(0, 540, ctx.q(13, 2)):
        lines.append(",".join(map(str, [64, a, rng.choice([1, 7, 8, 39, 40, 41, 64, 471, 472, 473, 600]), rng.randrange(0, 500), 100])))
    for n in (1, 3, 8, 16, 39, 40, 41, 63, 64, 65, 100, 236, 471, 472, 473, 511, 512, 513, 1000, 2500):
        lines.append(",".join([str(n)] * max(2, min(700, 1300 // n))))
    for w in (8, 16, 32, 64):
        lines.append(",".join(["w%d" % w] * (1400 * 8 // w)))
    for _ in range(ctx.q(90, 1500)):
        lines.append("64," + ",".join(rng.choice(["%d" % rng.randrange(0, 120), "%d" % rng.randrange(0, 700), "w32", "p64", "b%d" % rng.randrange(1, 60), "40"])
                                      for _ in range(rng.randint(2, 12))))
    lines += ["64,20000", "40,40000,40", "5000,9000,16500", "%d" % ctx.q(70000, 300000)]
    go(ctx, [("cha", l + ",100") for l in lines], "keystream", spec="random/KeyTrace")
