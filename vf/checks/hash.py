"""H01, H02: the hash table, against specs/hash."""
import random

GEN = "CONSTANTS K = %d Emit = TRUE\nSPECIFICATION Spec\nVIEW View\nINVARIANTS Unique Laws\n"
DES = "CONSTANTS K = %d B = %d Bug = \"%s\"\nSPECIFICATION Spec\nINVARIANTS Refines ChainsAgree\n"
BUGS = {"map": ["nodup", "duphead", "chaincut", "skipone", "noconst", "clearlast"],
        "list": ["relfail", "listhead", "nolist", "norel", "clearlast"]}


def exe(ctx):
    return ctx.exe("hashdrv", ["hashdrv.c"], lib=ctx.lib("std"), wraps=("malloc", "calloc", "realloc", "free"))


def djb(key, size):
    h = 5381
    for i in range(4):
        h = (h * 33 + ((key >> (8 * i)) & 0xff)) & 0xffffffff
    return h % size if size else h


def keysets(rng, n):
    """Interesting key tuples (inputs only: any keys are within contract)."""
    res = [list(range(n)), [0, 0xffffffff, 0x80000000, 0x7fffffff, 1][:n],
           [0x01000000 * i for i in range(n)], [0x00010000 * (i + 1) for i in range(n)],
           [0x100 * i + 7 for i in range(n)]]
    # keys with equal 32-bit hashes (b0+1,b1-33)
    res.append([(0x20 + 33 * 4) << 8 | 0x10, ((0x20 + 33 * 3) << 8) | 0x11, ((0x20 + 33 * 2) << 8) | 0x12,
                ((0x20 + 33) << 8) | 0x13, (0x20 << 8) | 0x14][:n])
    full = {}
    while True:
        k = (rng.randrange(1 << 8) << 24) | (rng.randrange(1 << 8) << 16)
        s = full.setdefault(djb(k, 0), set())
        s.add(k)
        if len(s) >= n:
            res.append(sorted(s)[:n])
            break
    res.append([rng.randrange(1 << 32) for _ in range(n)])
    return [r for r in res if len(set(r)) == n]


def histories(ctx, focus):
    rng = random.Random(ctx.seed * 7919 + 17)
    lines = []
    n = 0
    for K, reps in ((3, ctx.q(10, 60)), (4, ctx.q(1, 14))) + (() if not ctx.thorough else ((5, 1),)):
        hs = ctx.generate("hash/HashGen", GEN % K)
        ctx.extra["transitions_K%d" % K] = len(hs)
        sets = keysets(rng, K)
        for rep in range(reps):
            ks = sets[(rep + ctx.seed) % len(sets)]
            size = rng.choice([0, 1, 2, 3, 5, 13, 30, 200])
            for h in hs:
                # distinct data per insertion, so that stale data is seen
                ops = []
                for j, (op, k) in enumerate(h):
                    if op in "ic":
                        ops.append("%s%d,%d" % (op, k, 0 if (k == 2 and j == 0) else 1 + j * 5 + k))
                    elif k:
                        ops.append("%s%d" % (op, k))
                    else:
                        ops.append(op)
                tail = ["o"] + ["L%d" % k for k in range(1, K + 1)] + ["l%d" % k for k in range(1, K + 1)]
                last = h[-1]
                if rep == 0 and last[0] in "ic":      # the same insertion, refused for lack of memory
                    ops = ops[:-1] + ["F" + ops[-1]] + ["o"] + ops[-1:]
                if rep == 1:
                    nul = {"i": "Ni1,1", "c": "Nc1,1", "r": "Nr1", "l": "Nl1", "L": "NL1", "a": "Na", "D": "ND"}[last[0]]
                    ops = ops + [nul]
                lines.append("%d %d %s %s" % (size, 0 if rep % 5 == 4 else 1, ",".join(map(str, ks)),
                                              " ".join(ops + tail + (["m1", "M1"] if rep == 2 else []) + ["D", "o"])))
                n += 1
    # long random histories
    for r in range(ctx.q(120, 1500)):
        nk = rng.choice([3, 8, 30, 100, 400])
        size = rng.choice([0, 1, 2, 6, 7, 12, 31, 61, 126, 1021, 5000, 70000])
        kind = rng.randrange(4)
        if kind == 0:
            pool = list(range(nk))
        elif kind == 1:
            pool = [rng.randrange(1 << 32) for _ in range(nk)]
        elif kind == 2:
            sh = rng.choice([8, 16, 24])
            pool = list({(rng.randrange(1 << 8) << sh) | rng.randrange(4) for _ in range(nk)})
        else:      # one bucket
            pool, cur = [], rng.randrange(1 << 31)
            want = None
            while len(pool) < min(nk, 40):
                b = djb(cur, 7)
                if want is None or b == want:
                    want = b
                    pool.append(cur)
                cur = (cur + 1) & 0xffffffff
        pool = list(dict.fromkeys(pool))
        nk = len(pool)
        ops = []
        ln = rng.choice([60, 200, 500])
        pi = rng.choice([0.3, 0.5, 0.7])
        for j in range(ln):
            k = rng.randrange(nk) + 1
            x = rng.random()
            if x < pi:
                ops.append("%s%s%d,%d" % ("F" if rng.random() < 0.04 else "", rng.choice("iic"), k, rng.randrange(0, 90000)))
            elif x < pi + 0.2:
                ops.append("r%d" % k)
            elif x < 0.97:
                ops.append("%s%d" % (rng.choice("lL"), k))
            elif x < 0.99:
                ops.append("o")
            elif rng.random() < 0.3:
                ops.append(rng.choice("aD"))
        lines.append("%d %d %s %s" % (size, 0 if rng.random() < 0.15 else 1, ",".join(map(str, pool)),
                                      " ".join(ops + ["o"] + ["L%d" % k for k in range(1, nk + 1)] + ["D"])))
    # creation: every size near a power of two, refused memory, absurd sizes
    for s in sorted({(1 << b) + d for b in range(0, 21) for d in (-2, -1, 0, 1)} | {251, 509, 1021, 65521}):
        if s >= 0:
            lines.append("%d 1 1,2,3 i1,1 i2,2 c3,3 o L1 L2 L3 r2 o D" % s)
    for s in (0, 1, 100, 1 << 20, (1 << 31) - 1, 1 << 31, 1 << 32, (1 << 63), (1 << 64) - 1):
        lines.append("%d 1 1 FI" % s)
    lines.append("5 1 1 NI")
    return lines


def go(ctx, focus):
    for k, b in ((3, 2), ctx.q((3, 3), (4, 3))):
        ctx.model_check("hash/HashDesign", DES % (k, b, ""))
    for bug in BUGS[focus]:
        ctx.refute("hash/HashDesign", DES % (3, 2, bug), bug)
    e = exe(ctx)
    lines = histories(ctx, focus)
    recs = ctx.drive(e, lines, what="hash driver")
    for i, r in enumerate(recs):
        r["in"] = lines[i] if len(lines[i]) < 400 else lines[i][:400]
    ctx.sample(recs[len(recs) // 2])
    ctx.extra["histories"] = len(recs)
    ctx.judge("hash/HashTrace", "CONSTANT Focus = \"%s\"\n" % focus, recs, "hash table history",
              lambda b: "%s (%d calls)" % (b["in"], len(b["ev"])), shards=8)
    ctx.assumptions = ["a caller does not change entries through the public list", "a destroyed table is initialised again before use"]


def h01(ctx):
    go(ctx, "map")


def h02(ctx):
    go(ctx, "list")
