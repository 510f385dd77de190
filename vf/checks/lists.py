"""L01, L02: the linked list header, against specs/list."""
import itertools
import random

GEN = "CONSTANTS K = %d Emit = %s\nSPECIFICATION Spec\nVIEW View\nINVARIANTS Inv\n"
DES = "CONSTANTS K = %d Bug = \"%s\"\nSPECIFICATION Spec\nINVARIANTS Reads Loose\n"
WALK = "CONSTANTS N = %d Variant = \"%s\"\nSPECIFICATION Spec\nINVARIANTS Inv\n"


def exes(ctx):
    return [ctx.exe("listdrv", ["listdrv.c"], cflags=("-O2", "-fno-strict-aliasing")),
            ctx.exe("listdrvpp", ["listdrv_cpp.cpp"], cflags=("-O1",))]


def l01(ctx):
    ctx.model_check("list/ListDesign", DES % (ctx.q(3, 4), ""))
    for b in ("nolinkback", "halfdetach", "staleprev", "noinit", "readearly"):
        ctx.refute("list/ListDesign", DES % (3, b), b)
    rng = random.Random(ctx.seed * 31 + 5)
    e = exes(ctx)
    lines = []
    for K in (3,) + ((4,) if ctx.thorough else ()):
        hs = ctx.generate("list/ListGen", GEN % (K, "TRUE"))
        ctx.extra["transitions_K%d" % K] = len(hs)
        for lay in ((0, 1, 2) if K == 3 else (rng.randrange(3),)):
            for h in hs:
                lines.append("h %d %d %s o" % (lay, K, " ".join("%s%d%s" % (o, a, ",%d" % b if b else "") for o, a, b in h)))
    for r in range(ctx.q(150, 2500)):
        n = rng.choice([4, 5, 8, 20, 60])
        lines.append("h %d %d %s" % (rng.randrange(3), n, randhist(rng, n, rng.choice([30, 100, 300]))))
    lines += longs(rng, ctx.q(1, 6))
    for i, x in enumerate(e):
        recs = ctx.drive(x, lines if i == 0 else lines[::3] if not ctx.thorough else lines, what="list driver")
        ctx.sample(recs[len(recs) // 2])
        ctx.judge("list/ListTrace", "", recs, "list history", lambda b: str([(v["op"], v.get("a"), v.get("b")) for v in b.get("ev", [])] or b)[-400:],
                  shards=8)
    ctx.extra["histories"] = ctx.evals
    ctx.assumptions = ["operations are called within their contract: a node is added only while in no list; positions are linked"]


def randhist(rng, n, ln):
    """A random legal history (legality is re-checked by the specification)."""
    L = {101: [], 102: []}
    st = {i: "raw" for i in range(1, n + 1)}
    ops = []

    def inl():
        return L[101] + L[102]

    def where(x):
        return 101 if x in (101, *L[101]) else 102

    bias = rng.random()
    while len(ops) < ln:
        x = rng.random()
        ins = inl()
        out = [i for i in st if i not in ins]
        if x < 0.06:
            ops.append("o")
        elif x < 0.06 + 0.45 * bias and out:
            b = rng.choice(out)
            a = rng.choice([101, 102] + ins)
            op = rng.choice(["af", "ab", "pu", "ad"])
            if op == "pu":
                a = rng.choice([101, 102])
            q = L[where(a)]
            i = (0 if a > 100 else q.index(a) + 1) if op in ("af", "ad") else (len(q) if a > 100 else q.index(a))
            q.insert(i, b)
            st[b] = "in"
            ops.append("%s%d,%d" % (op, a, b))
        elif x < 0.55 and ins:
            a = rng.choice(ins)
            op = rng.choice(["de", "di", "dt"])
            L[where(a)].remove(a)
            st[a] = {"de": "unref", "di": "self", "dt": "raw"}[op]
            ops.append("%s%d" % (op, a))
        elif x < 0.65 and ins and out:
            a, b = rng.choice(ins), rng.choice(out)
            op = rng.choice(["rp", "ri"])
            q = L[where(a)]
            q[q.index(a)] = b
            st[a] = "raw" if op == "rp" else "self"
            st[b] = "in"
            ops.append("%s%d,%d" % (op, a, b))
        elif x < 0.9 and ins:
            b = rng.choice(ins + [i for i in out if st[i] == "self"])
            a = rng.choice([101, 102] + [i for i in ins if i != b])
            op = rng.choice(["ma", "mb"])
            if b in ins:
                L[where(b)].remove(b)
            q = L[where(a)]
            i = (0 if a > 100 else q.index(a) + 1) if op == "ma" else (len(q) if a > 100 else q.index(a))
            q.insert(i, b)
            st[b] = "in"
            ops.append("%s%d,%d" % (op, a, b))
        elif x < 0.97:
            h = rng.choice([101, 102])
            if L[h]:
                st[L[h].pop(0)] = "unref"
            ops.append("po%d" % h)
        elif out:
            a = rng.choice(out)
            op = rng.choice(["ni", "un"])
            st[a] = "self" if op == "ni" else "unref"
            ops.append("%s%d" % (op, a))
    return " ".join(ops + ["o"])


def longs(rng, n):
    """Lists longer than any small counter holds."""
    out = []
    for k in [0, 1, 2, 3, 127, 128, 129, 255, 256, 257, 1000, 4095, 4096, 32767, 32768, 32769, 65535, 65536, 65537, 70000, 131073]:
        for _ in range(n):
            out.append("g %d %d %d %d" % (rng.randrange(3), k, rng.choice([1, 2, 3, 5, 7, 100, 50000, 200000]), rng.randrange(4, 8)))
    return out


def l02(ctx):
    ctx.model_check("list/WalkDesign", WALK % (ctx.q(5, 8), "safe"))
    for v in ("plain", "late", "short"):
        ctx.refute("list/WalkDesign", WALK % (4, v), v)
    rng = random.Random(ctx.seed * 37 + 11)
    lines = []
    n = ctx.q(4, 6)
    for k in range(0, n + 1):
        for m in range(8):
            for acts in itertools.product("ndimf" if m >= 4 else "n", repeat=k):
                a = "".join(acts) or "-"
                lay = (0, 1, 2) if k < n else (rng.randrange(3),)
                for y in lay:
                    lines.append("w %d %d %s" % (y, m + 8 * rng.randrange(2), a))
    lines += longs(rng, ctx.q(2, 12))
    for r in range(ctx.q(300, 3000)):
        k = rng.choice([5, 6, 7, 10, 20, 64, 90])
        m = rng.randrange(8)
        lines.append("w %d %d %s" % (rng.randrange(3), m + 8 * rng.randrange(2), "".join(rng.choice("nndimf") if m >= 4 else "n" for _ in range(k))))
    for i, x in enumerate(exes(ctx)):
        recs = ctx.drive(x, lines, what="list walk driver")
        ctx.sample(recs[len(recs) // 2])
        ctx.judge("list/ListTrace", "", recs, "list walk", None, shards=8)
    ctx.extra["walks"] = ctx.evals
    ctx.assumptions = ["the body of a _safe walk removes, moves elsewhere or frees only the element being visited"]
