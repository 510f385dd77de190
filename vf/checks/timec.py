"""T01-T07: time functions, against specs/time."""
import calendar
import datetime
import os
import random

from .. import core

TLAWS = "CONSTANTS B = 2 S = %d DMax = %d Bug = \"%s\"\nSPECIFICATION Spec\nINVARIANTS %s\n"
B1000 = "CONSTANT B = 1000\n"
WRAPS = ("clock_gettime", "gettimeofday", "time", "settimeofday", "clock_settime", "nanosleep", "clock_nanosleep",
         "usleep", "sleep", "poll", "select")
G = 10 ** 9
I64 = 1 << 63


def driver(ctx):
    return ctx.exe("timedrv", ["timedrv.c"], lib=ctx.lib("std"), wraps=WRAPS)


def propdriver(ctx):
    """The driver with a library built for a system with libputils."""
    f = ("-O1", "-DBUILD_LIBPUTILS", "-I" + os.path.join(core.HARN, "stub-putils"))
    return ctx.exe("timedrv-props", ["timedrv.c"], lib=ctx.lib("putils", f), cflags=f, wraps=WRAPS)


def law_models(ctx, bugs):
    ctx.model_check("time/TimespecLaws", TLAWS % (ctx.q(1, 3), ctx.q(18, 40), "", "BigOk Laws Algo"))
    for b in bugs:
        ctx.refute("time/TimespecLaws", TLAWS % (1, 18, b, "Algo"), b)


NS = sorted({0, 1, 2, 999, 1000, 1001, 999999, 1000000, 1000001, 499999999, 500000000, 500000001, 999000000, 999999000,
             999998999, 999999001, 999999998, 999999999})
SECS = [0, 1, 2, -1, -2, 59, 1000, 86400, 2**31 - 1, 2**31, -2**31, 2**32 - 1, 2**32, 2**32 + 1, 10**10, -10**10,
        9223372036, 9223372037, -9223372037, 18446744073, 18446744074, 2**53, 9223372036854775, 18446744073709551,
        I64 - 2, I64 - 1, -I64, -I64 + 1]


def rts(rng, small=False):
    s = rng.choice(SECS) if rng.random() < 0.5 else rng.choice([rng.randrange(0, 100), rng.randrange(0, 1 << 33),
                                                               rng.randrange(-(1 << 62), 1 << 62), rng.randrange(-50, 50)])
    if small:
        s %= 1 << 34
    n = rng.choice(NS) if rng.random() < 0.6 else rng.randrange(G)
    return s, n


def near(rng, t):
    """A timespec a small or characteristic distance from t."""
    d = rng.choice([0, 0, 1, -1, 999, 1000, -1000, 10**6, 10**9, -10**9, G - 1, -(G - 1), rng.randrange(-3 * G, 3 * G),
                    rng.randrange(-10**6, 10**6)])
    x = t[0] * G + t[1] + d
    s, n = divmod(x, G)
    return max(-I64, min(I64 - 1, s)), n


def t01(ctx):
    law_models(ctx, ("borrow-equal", "carry-late", "borrow-missing"))
    rng = random.Random(ctx.seed * 211 + 1)
    lines = []
    pairs = []
    for a in NS:
        for b in NS:
            for ds in (0, 1, 2, -1):
                pairs.append(((100, a), (100 + ds, b)))
    for _ in range(ctx.q(1200, 20000)):
        t = rts(rng)
        pairs.append((t, near(rng, t)))
        pairs.append((rts(rng), rts(rng)))
    rng.shuffle(pairs)
    for i, (a, b) in enumerate(pairs):
        ab = "%d %d %d %d" % (*a, *b)
        lines.append("diff %d %d %s" % (rng.randrange(3), 0, ab))
        lines.append("diffus %d %s" % (rng.choice([0, 0, 0, 8]), ab))
        u = abs((a[0] * G + a[1]) - (b[0] * G + b[1])) // 1000
        rg = rng.choice([0, 1, u, max(0, u - 1), u + 1, u * 2, 2**64 - 1, 2**32, rng.getrandbits(rng.randrange(1, 64))])
        lines.append("range %d %s %d" % (rng.choice([0, 0, 0, 4]), ab, min(rg, 2**64 - 1)))
        lines.append("cmp 0 %s" % ab)
    for m in range(1, 8):
        lines += ["diff 0 %d 1 5 2 7" % m, "diffus %d 1 5 2 7" % m, "range %d 1 5 2 7 100" % m, "cmp %d 1 5 2 7" % (m % 4)]
    for m in (1, 2, 3):
        lines += ["add 0 0 %d 1 5 100" % m, "add 1 0 %d 1 5 100" % m]
    ds = {0, I64 - 1, -I64, I64 // 1000, -I64 // 1000, I64 // 1000 + 1, -(I64 // 1000) - 1}
    for b in range(0, 63):
        ds |= {1 << b, -(1 << b)}
    for k in range(0, 19):
        for j in (-1, 0, 1):
            ds |= {10**k + j, -(10**k) - j}
    ds = sorted(ds)
    for n in NS:
        for d in (ds if ctx.thorough else rng.sample(ds, 60)) + [-n, G - n, G - n - 1, -n - 1, G, -G, 2 * G - n, -G - n]:
            for us in (0, 1):
                s = rng.choice([0, 5, 100, -3, 1 << 40])
                lines.append("add %d %d 0 %d %d %d" % (us, rng.randrange(2), s, n, d))
    for d in ds:
        for us in (0, 1):
            s, n = rts(rng)
            lines.append("add %d %d 0 %d %d %d" % (us, rng.randrange(2), s, n, d))
            lines.append("add %d %d 0 0 0 %d" % (us, rng.randrange(2), d))
    for _ in range(ctx.q(1500, 30000)):
        s, n = rts(rng)
        d = rng.getrandbits(rng.randrange(1, 63)) * rng.choice([1, -1])
        lines.append("add %d %d 0 %d %d %d" % (rng.randrange(2), rng.randrange(2), s, n, d))
    recs = ctx.drive(driver(ctx), lines, what="time driver")
    ctx.sample(recs[0])
    ctx.sample(recs[-1])
    ctx.judge("time/TimespecTrace", B1000, recs, "timespec arithmetic", shards=8)


def t02(ctx):
    law_models(ctx, ("carry-late",))
    rng = random.Random(ctx.seed * 223 + 2)
    lines = []
    ts = [(s, n) for s in SECS if s >= 0 for n in NS]
    vals = {0, 2**64 - 1, 2**64 - 2}
    for b in range(64):
        vals |= {1 << b, (1 << b) - 1, (1 << b) + 1}
    for k in range(20):
        for m in (1, 2, 9):
            for j in (-1, 0, 1):
                vals.add(min(2**64 - 1, max(0, m * 10**k + j)))
    vals = list(sorted(vals))
    for _ in range(ctx.q(1000, 20000)):
        ts.append(rts(rng, small=True))
        vals.append(rng.getrandbits(rng.randrange(1, 65)))
    for s, n in ts:
        for u in range(3):
            lines.append("to %d 0 %d %d" % (u, s, n))
        lines.append("tv 0 0 %d %d" % (s, n // 1000))
        lines.append("tv 1 0 %d %d" % (s, n // 1000))
        lines.append("tv 1 0 %d %d" % (rng.randrange(4294968), rng.choice([0, 1, 999, 1000, 999999, rng.randrange(10**6)])))
    for us in (0, 1, 294, 295, 296, 967, 294967, 295999):
        lines.append("tv 1 0 4294967 %d" % us)
        lines.append("tv 0 0 -1 %d" % us)
    for v in vals:
        for u in range(3):
            lines.append("from %d 0 %d" % (u, v))
    for m in (1, 2, 3):
        for u in range(3):
            lines += ["to %d %d 3 5" % (u, m), "from %d %d 77" % (u, m)]
        lines += ["tv 0 %d 3 5" % m, "tv 1 %d 3 5" % m]
    e = driver(ctx)
    recs = ctx.drive(e, lines, what="time driver")
    ctx.sample(recs[5])
    # there and back: what the code itself made of a count
    back = []
    for r in recs:
        if r["k"] == "from" and r["nul"] == 0:
            back.append("to %d 0 %d %d" % (r["u"], big(r["r"]["s"]), big(r["r"]["n"])))
    r2 = ctx.drive(e, back, what="time driver")
    ctx.judge("time/TimespecTrace", B1000, recs + r2, "conversion", shards=8)


def big(b):
    v = 0
    for d in reversed(b["m"]):
        v = v * 1000 + d
    return -v if b["neg"] else v


CLK = ("CONSTANTS U = 3 TMax = %d Off0 = %d Req = 5 Sig = %d Bug = \"%s\"\nSPECIFICATION Spec\n"
       "INVARIANTS Within Slept NotLong\n")


def clock_models(ctx, bugs):
    for off in (50, 6):
        ctx.model_check("time/ClockDesign", CLK % (ctx.q(14, 24), off, 2, ""))
    for b in bugs:
        ctx.refute("time/ClockDesign", CLK % (14, 50, 2, b), b)


def rworld(rng, nofail=False):
    mono = rng.choice([0, 1, 10**6, 3600 * G, 86400 * 365 * G + 17, 10**15 + 999999999, rng.randrange(1 << 60)])
    off = rng.choice([0, 1600000000 * G + 123456789, -10**6, 5, 999, -999, rng.randrange(-10**12, 1 << 61)])
    step = rng.choice([0, 1, 999, 1000, 1001, 123456, 10**6, 999999999, 5 * G, rng.randrange(10**7)])
    if mono + off < 0:
        off = -mono // 2
    so, no = divmod(off, G)
    fail = 0 if nofail or rng.random() < 0.8 else rng.randrange(1, 5)
    err = rng.choice([22, 1, 14, 38, 5])
    sm, nm = divmod(mono, G)
    return "%d %d %d %d %d %d %d" % (sm, nm, so, no, step, fail, err), mono, off, step


def t03(ctx):
    clock_models(ctx, ("clamp", "abs", "eintr", "again", "stale"))
    rng = random.Random(ctx.seed * 227 + 3)
    lines = []
    n = ctx.q(700, 12000)
    for _ in range(n):
        w, mono, off, step = rworld(rng)
        lines.append("get %d %s" % (rng.randrange(2), w))
        w, mono, off, step = rworld(rng)
        d = rng.choice([0, 1, -1, step, step - 1, step + 1, -step, G, -G, mono % G, rng.randrange(1 << 50), -rng.randrange(1 << 40), mono])
        s, ns = divmod(mono + step - d, G)
        lines.append("diffnow 0 %d %d %d %s" % (rng.randrange(2), s, ns, w))
        for ms in (0, 1):
            w, mono, off, step = rworld(rng)
            u = 10**6 if ms else 1000
            now = mono // u
            mt = rng.choice([now, now + 1, max(0, now - 1), 0, now // 2, now * 2 + 5, now + rng.getrandbits(rng.randrange(1, 62)),
                             max(0, now - rng.getrandbits(rng.randrange(1, 50))), (1 << 63) // u, 2**64 // u - 1,
                             2**53, 2**32, 2**31, now ^ (1 << 31)])
            lines.append("m2r %d 0 %d %s" % (ms, min(mt, 2**64 - 1), w))
    for i in range(2):
        lines += ["m2r %d 1 5 %s" % (i, rworld(rng, True)[0])]
    for m in (1, 2, 3):
        lines.append("diffnow %d 0 1 1 %s" % (m, rworld(rng, True)[0]))
    msv = [0, 1, 2, 10, 999, 1000, 1001, 1999, 2000, 59999, 60000, 2**31 // 1000, 4294, 4295, 2147483, 2147484, 2**31 - 1, 2**31, 2**32 - 1,
           2**32 - 1000, 4294967, 4294968]
    for _ in range(ctx.q(600, 8000)):
        ms = rng.choice(msv) if rng.random() < 0.5 else rng.getrandbits(rng.randrange(1, 33))
        tot = ms * 10**6
        k = rng.choice([0, 0, 1, 1, 2, 3, 7, 20])
        ints, left = [], tot
        for _ in range(k):
            d = rng.choice([0, 0, 1, min(left, 10**6), left // 2, left - 1 if left else 0, min(left, 10**9), rng.randrange(left + 1)])
            ints.append(d)
            left = max(0, left - d)
        w = rworld(rng, True)[0]
        if rng.random() < 0.15:
            w = " ".join(w.split()[:5] + [str(rng.randrange(1, 4)), rng.choice(["22", "14", "95"])])
        lines.append("sleep %d %s %d %s" % (ms, w, len(ints), " ".join(map(str, ints))))
    recs = ctx.drive(driver(ctx), lines, what="time driver")
    ctx.sample(recs[2])
    ctx.sample(recs[-1])
    # a simulator that fixes the distance of the clocks
    sim = []
    for _ in range(ctx.q(300, 4000)):
        for ms in (0, 1):
            w = rworld(rng)[0]
            v = rng.choice([0, 1, -1, 999, -999, 10**15, 1600000000000000, 2**31, 2**32, -2**31, I64 - 1, -I64, I64, -I64 - 1, 2**64,
                            10**30, rng.getrandbits(62), -rng.getrandbits(62), rng.getrandbits(51), rng.getrandbits(40)])
            t = rng.choice(["%d", "%d", "%d", "%020d", ""])
            t = t % v if t else t
            mt = rng.choice([0, 1, 5, 10**9, 2**32, rng.getrandbits(50), rng.getrandbits(63) // (1000 if ms else 1), max(0, -v) // (1000 if ms else 1) + rng.randrange(5)])
            sim.append("m2rsim %d %s 0 %d %s" % (ms, hx(t), min(mt, 2**64 - 1), w))
    srecs = ctx.drive(propdriver(ctx), sim, what="time driver with properties")
    ctx.sample(srecs[0])
    ctx.judge("time/ClockTrace", B1000, recs + srecs, "clock function", shards=8)


def t07(ctx):
    clock_models(ctx, ())
    rng = random.Random(ctx.seed * 229 + 7)
    e = driver(ctx)
    recs = []
    zones = [(tz, (off, off, 0, 0)) for tz, off in (("UTC0", 0), ("AAA-3:30", 12600), ("BBB+11", -39600), ("CCC-14", 50400), ("GGG-24:59:59", 89999), ("HHH+24:59:58", -89998))]
    zones += [("DDD-1EEE-2,J86/0,J299/0", (3600, 7200, 86, 299)), ("FFF+3GGG+2,J300/0,J60/0", (-10800, -7200, 300, 60))]
    for tz, (off, alt, j1, j2) in zones:
        lines = []
        if j1:
            # around the changes of the clock, with time passing during the call
            for _ in range(ctx.q(500, 8000)):
                y = rng.randrange(1971, 2037)
                j, o = rng.choice([(j1, off), (j2, alt)])
                t = (datetime.date(y, 1, 1) - datetime.date(1970, 1, 1)).days + j - 1 + (j >= 60 and calendar.isleap(y))
                ns = (t * 86400 - o) * G + rng.choice([-1, 0, 1, -G, G - 1, -2 * G, -rng.randrange(3 * G), rng.randrange(2 * G), -10**6, -10**3])
                m = rng.choice([5 * G, 0, rng.randrange(10**14)])
                lines.append("local %d %d %d %d %d %d %d 0 0" % ((rng.randrange(2), rng.choice([0, 0, 0, 1, 2])) + divmod(m, G) + divmod(ns - m, G)
                             + (rng.choice([0, 1, 1000, 10**6, 10**9, rng.randrange(2 * 10**9)]),)))
        for _ in range(0 if j1 else ctx.q(250, 3000)):
            w = rworld(rng)[0]
            lines.append("local %d %d %s" % (rng.randrange(2), rng.choice([0, 0, 0, 0, 1, 2, 4, 3, 6]), w))
            ep = rng.choice([0, 1, 1600000000, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**32 + 5, 253402300799, rng.getrandbits(40),
                             rng.getrandbits(31)])
            lines.append("setlocal %d %d %d" % (ep, rng.choice([0, 3600, -3600, 43200, 12345, -43200, 50400, 50401, 86400, -86399, 2**31 - 1, -2**31, rng.randrange(-90000, 90000)]), rng.choice([0, 0, 0, 1, 22])))
        for m in () if j1 else (1, 4, 5, 7):
            for wh in (0, 1):
                lines.append("local %d %d %s" % (wh, m, rworld(rng, True)[0]))
        recs += ctx.drive(e, lines, what="time driver", env={"TZ": tz, "VF_ZONE": '{"std":%d,"alt":%d,"j1":%d,"j2":%d,"dst":%s}' % (off, alt, j1, j2, "true" if j1 else "false")})
    ctx.sample(recs[0])
    ctx.sample(recs[1])
    # the offset kept in a property
    lines = []
    for _ in range(ctx.q(150, 2000)):
        ev = ["%d %d %d %d %d" % (rng.choice([0, 1600000000, rng.getrandbits(33)]), rng.choice([0, 3600, -3600, 1, -1, 50400, -50400, 2**31 - 1, -2**31, rng.randrange(-50400, 50401)]),
                                  rng.choice([0, 0, 0, 1, 22]), rng.choice([0, 0, 0, 5, 28]), rng.randrange(3)) for _ in range(rng.randrange(1, 6))]
        lines.append("props %s %d %s" % (rworld(rng, True)[0], len(ev), " ".join(ev)))
    # props N WORLD...: the number comes first
    lines = ["props %s %s %s" % (x.split()[8], " ".join(x.split()[1:8]), " ".join(x.split()[9:])) for x in lines]
    prec = ctx.drive(propdriver(ctx), lines, what="time driver with properties", env={"TZ": "CCC-14", "VF_ZONE": "null"})
    ctx.sample(prec[0])
    ctx.judge("time/ClockTrace", B1000, recs + prec, "local time", shards=8)


ZONE = {"TZ": "AAA-3:30BBB,M3.2.0,M11.1.0"}
CAL = "CONSTANTS First = %d Last = %d Chains = %d Bug = \"%s\"\nSPECIFICATION Spec\nINVARIANTS Closed CCode\n"
TXT = ("CONSTANTS Days = {%s} Sods = {0, 1, 59, 3599, 3600, 43200, 86399} OffMins = {1, 59, 60, 90, 840}\n"
       "SPECIFICATION Spec\nINVARIANTS RoundTrip Lengths Shape\nCHECK_DEADLOCK FALSE\n")
DAY9999 = 2932896


def days(rng, n):
    d = {0, 1, 30, 31, 58, 59, 60, 364, 365, 789, 790, 10956, 10957, 11016, 11017, 24855, 24856, 47540, 47541, 47542, 47599, DAY9999 - 365,
         DAY9999 - 1, DAY9999 - 2}
    while len(d) < n:
        d.add(rng.randrange(DAY9999))
    return sorted(d)


def text_models(ctx, calendar=True):
    if calendar:
        ctx.model_check("time/CalendarDesign", CAL % (ctx.q(1895, 0), ctx.q(2110, 10000), ctx.q(8, 64), ""))
        for b in ("no100", "no400", "marchbase"):
            ctx.refute("time/CalendarDesign", CAL % (1899, 2102, 8, b), b)
    rng = random.Random(ctx.seed)
    ctx.model_check("time/TimeTextLaws", TXT % ", ".join(map(str, days(rng, ctx.q(24, 200)))))


def t04(ctx):
    text_models(ctx)
    rng = random.Random(ctx.seed * 233 + 4)
    sods = [0, 1, 59, 60, 3599, 3600, 36000, 43199, 43200, 86399]
    offm = [0, 1, -1, 30, -30, 59, -59, 60, -60, 90, -625, 625, 599, -599, 600, 840, -840, 839, -839]
    lines = []

    def add(d, s, o, fmt, n=64, nul=0):
        lines.append("fmt %d %d %d %d %d %d" % (d, s, o * 60, fmt, n, nul))
    dl = days(rng, ctx.q(900, 20000))
    for d in dl:
        s = rng.choice(sods) if rng.random() < 0.5 else rng.randrange(86400)
        o = rng.choice(offm) if rng.random() < 0.7 else rng.randrange(-840, 841)
        for f in range(3):
            add(d, s, rng.choice([o, o, 0]), f)
        lines.append("totm %d %d %d 0" % (d, s, o * 60))
        lines.append("totm %d %d 0 %d" % (d, rng.randrange(86400), rng.choice([0, 4, 8])))
    if ctx.thorough:
        for o in range(-840, 841):
            for f in range(3):
                add(rng.choice(dl), rng.randrange(86400), o, f)
    # every month boundary of leap, common and century years
    for y0 in (0, 730, 1095, 10957, 47482, 47847, 157054):
        for k in range(0, 366, ctx.q(5, 1)):
            for f in range(3):
                add(y0 + k, rng.choice([0, 86399]), rng.choice([0, 60, -60, 840, -840]), f)
            lines.append("totm %d %d %d 0" % (y0 + k, rng.choice([0, 86399]), rng.choice([0, 840, -840]) * 60))
    # buffers of every size
    for f in range(3):
        for d in (3, 17000, 17007, 2000000):
            for o in (0, 625, -1):
                for n in range(0, 36):
                    add(d, 45296, o, f, n)
        add(5, 5, 0, f, 64, 1)
    for f in (3, 4, 77):
        add(5, 5, 0, f)
    for m in (1, 2, 3, 12, 14):
        lines.append("totm 5 5 60 %d" % m)
    e = driver(ctx)
    # the process time zone does not matter
    h = len(lines) // 2
    recs = ctx.drive(e, lines[:h], what="time driver") + ctx.drive(e, lines[h:], what="time driver", env=ZONE)
    ctx.sample(recs[1])
    # parse what the code rendered
    back = ctx.drive(e, ["parse %s 0" % hx(r["s"]) for r in recs if r["k"] == "fmt" and r["ret"] == 0], what="time driver", env=ZONE)
    ctx.sample(back[0])
    src = [r for r in recs if r["k"] == "fmt" and r["ret"] == 0]
    ctx.extra["texts_parsed_back"] = len(back)
    ctx.judge("time/TimeTextTrace", "", recs + back, "calendar or text function", shards=8)


def hx(bs):
    return "".join("%02x" % (b if isinstance(b, int) else ord(b)) for b in bs) or "-"


MON = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"]
WD = ["Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"]


def texts(rng, n):
    """Well-formed and almost well-formed date/time texts."""
    out = []

    def pick(good, bad, p=0.06):
        return rng.choice(bad) if rng.random() < p else rng.choice(good)

    def two(lo, hi, p=0.05):
        return pick(["%02d" % rng.randrange(lo, hi + 1)] * 3 + ["%02d" % hi, "%02d" % lo],
                    ["%02d" % (hi + 1), "99", " %d" % rng.randrange(10), "+%d" % rng.randrange(10), "-%d" % rng.randrange(10), "0x",
                     "%d" % rng.randrange(10), "000", "%d " % rng.randrange(10), "00", "a1", "1a", "60", "24", "32", "13", "\t1"], p)

    def year():
        return pick(["%04d" % rng.randrange(1970, 2100)] * 4 + ["%04d" % rng.randrange(1, 9999), "2000", "1900", "2100", "2400", "1970",
                                                             "9999", "1969", "0000", "2020", "2019"],
                    ["+201", " 201", "-201", "201", "20180", "20a8", "0x12", "    ", "----"], 0.04)

    def date(short):
        j = "" if short else pick(["-"], ["/", ".", "_", " ", ":"], 0.03)
        j2 = "" if short else pick(["-"], ["/", ".", "_", " ", ":"], 0.03)
        d = pick(["%02d" % rng.randrange(1, 29)] * 3 + ["28", "29", "30", "31", "01"], ["00", "32", "99", "+5", " 5", "5 ", "-1", "1", "0"], 0.05)
        return year() + j + two(1, 12) + j2 + d

    def hour(short):
        j = "" if short else pick([":"], [";", "-", " ", "."], 0.03)
        j2 = "" if short else pick([":"], [";", "-", " ", "."], 0.03)
        return two(0, 23) + j + two(0, 59) + j2 + pick([two(0, 59)], ["60"], 0.04)

    def zone():
        k = rng.randrange(8)
        if k < 3:
            return rng.choice("+-") + two(0, 14, 0.08) + ":" + two(0, 59, 0.08)
        if k < 6:
            return rng.choice("+-") + two(0, 13, 0.08) + two(0, 59, 0.08)
        return pick(["Z", "GMT", "UT", "UTC"], ["", "z", "ZZ", "GM", "GMTX", "U", "UTCX", "+01", "+1:00", "+01:0", "+01;00", "*01:00", "+0100 ",
                                                "Y", "EST", " Z ", "+010", "01:00", "+01:000"], 0.2)

    def one():
        if rng.random() < 0.55:
            return (date(rng.random() < 0.5) + pick(["T", "T", " "], ["t", "", "  ", "_", "TT", " T", "\t"], 0.06) + hour(rng.random() < 0.5)
                    + pick(["", "", " "], ["  ", "\t", "_"], 0.03) + zone())
        d = pick([str(rng.randrange(1, 29)), "%02d" % rng.randrange(1, 29), "29", "30", "31"],
                 ["0", "00", "32", "99", "+5", " 5", "-5", "", "1a", "005", "a"], 0.06)
        m = pick(MON, ["jan", "Jax", "Ja", "June", "   ", "12"], 0.05)
        s1, s2 = pick([" "], ["", "-", "  ", "_"], 0.04), pick([" "], ["", "-", "  ", "_"], 0.04)
        dm = d + s1 + m if rng.random() < 0.6 else m + s1 + d
        return (pick(WD, ["mon", "Mo", "Xyz", "Monday"], 0.05) + pick([", "], [" ", ",", ",  ", "; ", ",_"], 0.04) + dm + s2 + year()
                + pick([" "], ["", "T", "  ", " T", "_"], 0.05) + hour(rng.random() < 0.1) + pick([" "], ["", "  ", "_"], 0.05) + zone())
    for _ in range(n):
        t = one()
        r = rng.random()
        if r < 0.08 and t:       # lose, repeat or change one character
            k = rng.randrange(len(t))
            t = rng.choice([t[:k] + t[k + 1:], t[:k] + t[k] + t[k:], t[:k] + rng.choice(" :-+T0159ZaG,\x01\xff") + t[k + 1:], t[:k], t[:k] + " " + t[k:]])
        out.append(t)
    return out


def t05(ctx):
    text_models(ctx, calendar=ctx.thorough)
    rng = random.Random(ctx.seed * 239 + 5)
    tx = texts(rng, ctx.q(6000, 80000))
    # every field value of two digits, in each place
    for v in range(100):
        w = "%02d" % v
        for p in ("2018-%s-11T10:10:10Z", "2018-02-%sT10:10:10Z", "2020-02-%sT10:10:10Z", "2018-06-%sT10:10:10Z", "20181%s1T101010+0000",
                  "2018-11-11T%s:10:10Z", "2018-11-11T10:%s:10Z", "2018-11-11T10:10:%sZ", "2018-11-11T10:10:10+%s:00",
                  "2018-11-11T10:10:10-%s00", "2018-11-11T10:10:10-01:%s", "20181111T101010+01%s", "Sun, %s Nov 2018 10:10:10 GMT",
                  "Sun, Nov %s 2018 10:10:10 GMT", "Sun, 11 Nov 20%s 10:10:10 UT"):
            if "%s" in p:
                tx.append(p % w)
    # every day of every month, in every form of a date
    mons = "Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec".split()
    wds = "Sun Mon Tue Wed Thu Fri Sat".split()
    zones = ["Z", "GMT", "UT", "UTC", "+0000", "-0000", "+01:00", "-0130", "+1400", "-12:00", "-00:30", "+0545"]
    for m in range(1, 13):
        for d in range(1, 32):
            y = rng.choice((2016, 2019, 2020, 2100, 2400, rng.randrange(1970, 10000)))
            h = "%02d:%02d:%02d" % (rng.randrange(24), rng.randrange(60), rng.randrange(60))
            z = rng.choice(zones)
            tx.append("%04d-%02d-%02dT%s%s" % (y, m, d, h, z))
            tx.append("%04d%02d%02dT%s%s" % (y, m, d, h.replace(":", ""), z))
            for ds in ["%02d" % d] + (["%d" % d] if d < 10 else []):
                w = rng.choice(wds)
                tx.append("%s, %s %s %04d %s %s" % (w, ds, mons[m - 1], y, h, z))
                tx.append("%s, %s %s %04d %s %s" % (w, mons[m - 1], ds, y, h, z))
    # the length of every month of many years
    for y in sorted(set(range(1970, 2420, 1 if ctx.thorough else 3)) | set(range(1996, 2032)) | set(range(2000, 10000, 100)) | {rng.randrange(1970, 10000) for _ in range(60)}):
        for m, d in ((2, 28), (2, 29), (2, 30)) + (((rng.choice([4, 6, 9, 11]), 31), (rng.choice([4, 6, 9, 11]), 30), (12, 31), (1, 1), (1, 0)) if y % 7 == 0 else ()):
            tx.append(rng.choice(["%04d-%02d-%02dT10:10:10Z", "%04d%02d%02dT101010+0000"]) % (y, m, d))
        tx.append("Tue, %s %04d 00:00:00 GMT" % (rng.choice(["29 Feb", "Feb 29"]), y))
    # names are exact: every letter of every name changed
    for names, form in ((mons, "Thu, 01 %s 2018 12:13:14 GMT"), (mons, "Thu, %s 1 2018 12:13:14 GMT"), (wds, "%s, 01 Mar 2018 12:13:14 GMT")):
        for w in names:
            tx.append(form % w)
            tx.append(form % w.lower())
            tx.append(form % w.upper())
            for k in range(3):
                tx.append(form % (w[:k] + rng.choice("abcdefghijklmnopqrstuvwxyz".replace(w[k].lower(), "")) + w[k + 1:]))
                tx.append(form % (w[:k] + rng.choice(names)[k] + w[k + 1:]))
    for _ in range(150):
        tx.append("2018-03-01T12:13:14" + rng.choice(zones) + rng.choice(["", "", " ", "0", "Z"]))
    # every character in every place of one text of each kind, and every prefix
    kinds = ["2018-03-01T12:13:14+01:30", "20180301T121314-0130", "Thu, 1 Mar 2018 12:13:14 GMT", "Thu, Mar 01 2018 12:13:14 UTC", "2018-03-01 12:13:14Z", "2018-03-01T12:13:14UT", "20180301T121314 UTC",
             "2018-03-01T12:13:14 GMT", "Sat, 03 Mar 2018 12:13:14 UT", "20180301T121314Z"]
    for t in kinds:
        for k in range(len(t)):
            tx.append(t[:k])
            for ch in ("\t +-:0129ZTGUAa,./;" + "".join(chr(rng.randrange(1, 256)) for _ in range(9)) if not ctx.thorough else map(chr, range(1, 256))):
                tx.append(t[:k] + ch + t[k + 1:])
            for w in ("  ", "+1", "-1", " 1", "1 ", "\n1", "0x", "1e"):
                tx.append(t[:k] + w + t[k + 2:])
    tx += ["", "T", "Z", "Mon", "Mon,", "Mon, ", "Mon, Aug", "x" * 1000, "2018-03-01", "2018-03-01T", "20180301", "20180301T", "0000-01-01T00:00:00Z",
           "0000-02-29T00:00:00Z", "0000-03-01T00:00:00Z", "0001-01-01T00:00:00Z", "1969-12-31T23:59:59Z", "1969-12-31T23:00:00-01:00",
           "9999-12-31T23:59:59Z", "9999-12-31T23:59:59-14:00", "1900-02-29T00:00:00Z", "2000-02-29T00:00:00Z", "2100-02-29T00:00:00Z",
           "2016-12-31T23:59:60Z", "2018-03-01T24:00:00Z"]
    lines = ["parse %s 0" % hx(t.encode("latin1")) for t in tx]
    for m in range(1, 8):
        lines.append("parse %s %d" % (hx(b"2018-03-01T12:13:14Z"), m))
    # the parsers of the two-step protocol
    for t in rng.sample(tx, ctx.q(1500, 20000)):
        if "T" in t:
            d, h = t.split("T", 1)
            d, h = d.encode("latin1"), rng.choice(["", "T"]).encode() + h.encode("latin1")
            lines.append("ctx 4 I D:%s H:%s G" % (hx(d), hx(h)))
            lines.append("ctx 3 I T:%s G" % hx(t.encode("latin1")))
    recs = ctx.drive(driver(ctx), lines, what="time driver", env=ZONE)
    ctx.sample("".join(map(chr, recs[3]["s"])))
    ctx.sample(recs[4])
    ctx.extra["accepted"] = sum(1 for r in recs if r.get("ret") == 0)
    ps = [r for r in recs if "k" in r]
    ctx.judge("time/TimeTextTrace", "", ps, "parse", shards=8,
              describe=lambda r: "%r -> %s" % ("".join(map(chr, r["s"])), {k: v for k, v in r.items() if k != "s"}))
    ctx_judge(ctx, [r for r in recs if "ev" in r])


def ctx_judge(ctx, hists):
    for i, h in enumerate(hists):
        h["_"] = i
    bad = ctx.validate("time/TimeCtxTrace", "SPECIFICATION Spec\nPOSTCONDITION Report\nCHECK_DEADLOCK FALSE\n", hists,
                       shards=8 if len(hists) > 500 else 2)
    if bad:
        b = bad[0]
        e = b["hist"]["ev"]
        from vf.core import Violation
        txt = ["%s(%s)=%s" % (x["op"], "".join(map(chr, x["s"])), x["ret"]) for x in e]
        raise Violation("time context: step %d of %s is not allowed (%s)" % (b["at"], txt, e[b["at"] - 1] if b["at"] <= len(e) else ""),
                        {"rejected": len(bad), "first": b})


CTXD = "CONSTANTS V = 2 Depth = %d Bug = \"%s\"\nSPECIFICATION Spec\nINVARIANTS Answers Local\nCHECK_DEADLOCK FALSE\n"


def t06(ctx):
    ctx.model_check("time/TimeCtxDesign", CTXD % (ctx.q(6, 9), ""))
    for b in ("flagfirst", "clobber", "dateonly", "early"):
        ctx.refute("time/TimeCtxDesign", CTXD % (6, b), b)
    rng = random.Random(ctx.seed * 241 + 6)

    def t(op, s):
        return "%s:%s" % (op, hx(s))
    alpha = [t("D", "2018-03-01"), t("D", "20200229"), t("D", "2019-02-29"), t("H", "T121314+0130"), t("H", "23:59:59-10:00"),
             t("H", "12:60:00Z"), t("T", "2001-12-31T23:59:59-01:00"), t("T", "20010203T040506Z0"), "I", "G"]
    seqs = ctx.generate("time/TimeCtxGen", "CONSTANTS N = %d K = %d\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n" % (ctx.q(4, 5), len(alpha)))
    lines = []
    for s in seqs:
        lines.append("ctx %d I %s G" % (len(s) + 2, " ".join(alpha[k - 1] for k in s)))
    tx = [x.encode("latin1") for x in texts(rng, 3000)]
    parts = [x.split(b"T", 1) for x in tx if b"T" in x]
    null = ["i", "d", "h", "t", "k", "g", "j", "0", "1", "2"]
    for _ in range(ctx.q(1500, 25000)):
        n = rng.randrange(3, 14)
        ops = ["I"]
        for _ in range(n):
            k = rng.random()
            if k < 0.25:
                ops.append(t("D", rng.choice(parts)[0]))
            elif k < 0.5:
                ops.append(t("H", rng.choice(["", "T"]).encode() + rng.choice(parts)[1]))
            elif k < 0.65:
                ops.append(t("T", rng.choice(tx)))
            elif k < 0.85:
                ops.append("G")
            elif k < 0.93:
                ops.append(rng.choice(null))
            elif k < 0.97:
                ops.append(rng.choice(alpha))
            else:
                ops.append("I")
        ops.append("G")
        lines.append("ctx %d %s" % (len(ops), " ".join(ops)))
    recs = ctx.drive(driver(ctx), lines, what="time driver")
    ctx.sample(recs[1234])
    ctx.extra["enumerated_sequences"] = len(seqs)
    ctx_judge(ctx, recs)
