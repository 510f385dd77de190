"""P01: calls on separate objects do not disturb each other, against specs/conc."""
import json
import random
import re

from ..core import HARN

DIST = """CONSTANTS a = a b = b c = c
CONSTANTS Threads = {%s} Args = {1, 2, 3} MaxCalls = %d Variant = "%s"
SPECIFICATION Spec
INVARIANTS %s
SYMMETRY Sym
CHECK_DEADLOCK FALSE
"""
NAMES = ("arith convert format parse tm ctx varint utf8check utf8fix hash list mbox dynmbox commit rollback dirsize sync inotify flags cxx "
         "random clock watch").split()
WATCH = NAMES.index("watch")


def p01(ctx):
    ctx.model_check("conc/Disturb", DIST % ("a, b", ctx.q(4, 6), "", "Alone Ambient"))
    ctx.model_check("conc/Disturb", DIST % ("a, b, c", ctx.q(3, 5), "", "Alone Ambient"))
    ctx.refutes("conc/Disturb", ("static", "cache", "lazy", "ambient"), lambda v: DIST % ("a, b", 3, v, "Alone"))
    ctx.refute("conc/Disturb", DIST % ("a", 1, "ambient", "Ambient"), "a setting changed for a while")
    src = open(HARN + "/pairdrv.c").read()
    wraps = sorted(set(re.findall(r"__wrap_(\w+)\(", src)) | set(re.findall(r"^WM?\([^,]*, (\w+),", src, re.M)))
    lib = ctx.lib("tsan", cflags=("-O1", "-fsanitize=thread", "-U_FORTIFY_SOURCE"), with_cpp=True)
    e = ctx.exe("pairdrv", ["pairdrv.c", "paircxx.cpp"], lib=lib, wraps=wraps)
    rng = random.Random(ctx.seed)
    n = len(NAMES)
    V = range(4)
    progs = []
    for f in range(n):
        for v in V:
            # the same function on separate objects; before and after each other in one thread; watched
            progs.append(("%d.%d/%d.%d" % (f, v, f, (v + 1) % 4), ctx.q(1, 2), ctx.q(120, 3000)))
            progs.append(("%d.%d/%d.%d" % (f, v, f, v), 1, ctx.q(120, 3000)))
            if v < 2:
                progs.append(("%d.%d/%d.%d" % (f, v, f, v + 2), 1, ctx.q(120, 3000)))
                progs.append((",".join("%d.%d" % (f, x) for x in (v, v + 1, v, 3 - v, v)), 0, 1))
                progs.append(("%d.%d/%d.%d" % (WATCH, v, f, v), 1, ctx.q(150, 2000)))
                progs.append(("%d.%d/%d.%d" % (f, v + 2, WATCH, v), 1, ctx.q(150, 2000)))
        for g in range(n):
            if f != g:
                v, w = rng.choice(V), rng.choice(V)
                progs.append(("%d.%d/%d.%d" % (f, v, g, w), 1, ctx.q(30, 1000)))
    for _ in range(ctx.q(120, 2000)):
        progs.append((",".join("%d.%d" % (rng.randrange(n), rng.choice(V)) for _ in range(6)), 0, 1))
    for _ in range(ctx.q(60, 800)):
        k = rng.choice([2, 3])
        fs = rng.sample(range(n), 2)
        progs.append(("/".join(",".join("%d.%d" % (rng.choice(fs), rng.choice(V)) for _ in range(rng.randint(1, 3))) for _ in range(k)),
                      1, ctx.q(60, 2000)))
    rng.shuffle(progs)
    recs = ctx.drive(e, ["%d %d %s" % (b, x, p) for p, b, x in progs], what="calls side by side", timeout=800, cwds=True)
    ctx.extra.update(executions=sum(r["ex"] for r in recs), programs=len(recs))
    ctx.evals += sum(r["ex"] for r in recs) - len(recs)
    ctx.sample(json.dumps(recs[0])[:900])
    ctx.judge("conc/PairTrace", "", recs, "calls on separate objects", shards=8, describe=lambda r: json.dumps(trim(r))[:1200])


def trim(r):
    """The first outcome with a difference, for reading."""
    for o in r["outs"]:
        bad = [c for c in o["calls"] if c["got"] != c["alone"]]
        if bad or o["st"] or o["a0"] != o["a1"]:
            return {"prog": " / ".join(",".join(NAMES[int(x.split(".")[0])] + x[x.index("."):] for x in t.split(",")) for t in r["prog"].split("/")),
                    "st": o["st"], "a0": o["a0"] if o["a0"] != o["a1"] else "", "a1": o["a1"] if o["a0"] != o["a1"] else "", "calls": bad}
    return r
