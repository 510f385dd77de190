"""F01, F02, F03, I01: files and descriptors, against specs/files."""
import itertools
import json
import os
import random
import shutil

ACCT = ("malloc", "calloc", "realloc", "free", "strdup", "strndup")


def hx(s):
    return "".join("%02x" % b for b in (s if isinstance(s, bytes) else s.encode())) or "-"


def short(r):
    s = json.dumps(r)
    return s if len(s) < 1200 else s[:1200] + "..."


# ------------------------------------------------------------------------ F01
NAMES = ["a", "b.txt", ".hidden", "..x", "...", " ", "lost+found", "x" * 255, "\xe9", "n\nl", "-r", "*", "z" * 100, "C", "%s%n", "~"]
BIGS = [0, 1, 511, 512, 4095, 4096, 999999, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 7, 5 << 30, 3 << 38]


def f01_line(rec, form, faults, nodes):
    return "%d %s %d %d %s" % (rec, form, faults, len(nodes), " ".join("%d %s %d %s %s" % (p, k, z, hx(n), hx(t)) for p, k, z, n, t in nodes))


def names(rng, k):
    """k different names."""
    out = []
    while len(out) < k:
        n = rng.choice(NAMES) if rng.random() < .7 else "f%d" % rng.randrange(1000)
        if n in out:
            n = "%s%d" % (n[:240], len(out))
        out.append(n)
    return out


def f01(ctx):
    def cfg(n, v="", gen=False, kinds='"f", "d", "l", "m", "p"', sizes="1, 2"):
        return ('CONSTANTS MaxNodes = %d Sizes = {%s} Kinds = {%s} Variant = "%s" Gen = %s\nSPECIFICATION Spec\nINVARIANTS %s\n%sCHECK_DEADLOCK FALSE\n'
                % (n, sizes, kinds, v, "TRUE" if gen else "FALSE", "Emit\nCONSTRAINT Constraint" if gen else "Right Released",
                   "" if gen or v else "PROPERTY Ends\n"))
    ctx.model_check("files/DirWalk", cfg(ctx.q(3, 4)), workers=8)
    ctx.refutes("files/DirWalk", ("ignore_stat", "last", "always", "count_dirs", "follow", "others", "ignore_list", "shallow", "leak"),
                lambda v: cfg(3, v, kinds='"f", "d", "l", "p"', sizes="1"))
    trees = ctx.generate("files/DirWalk", cfg(4, gen=True, kinds='"f", "d", "l", "m", "p"' if ctx.thorough else '"f", "d", "l", "m"', sizes="7"))
    rng = random.Random(ctx.seed)
    exe = ctx.exe("dirdrv", ["dirdrv.c", "sysmon.c", "acct.c"], lib=ctx.lib("std", cflags=("-O1", "-U_FORTIFY_SOURCE")), wraps=ACCT)
    forms = ["abs", "slash", "rel", "dot", "link"]
    lines = ["0 none 0 0", "1 none 1 0", "0 file 0 0", "1 file 1 0", "1 abs 1 0", "0 abs 1 0"]
    rng.shuffle(trees)
    for i, t in enumerate(trees):
        ns = names(rng, len(t))
        nodes = []
        for j, n in enumerate(t):
            k = n["k"]
            z = rng.choice(BIGS if rng.random() < .2 else [1, 3, 10, 1000, 12345]) if k == "f" else 0
            to = {"l": rng.choice(["/etc/passwd", "../../../../bin/sh", "nothing", ns[0]]), "m": rng.choice([".", "..", "./"])}.get(k, "")
            nodes.append((n["p"], "l" if k == "m" else k, z, ns[j], to))
        for rec in (0, 1):
            lines.append(f01_line(rec, forms[(i + rec) % 5], i < ctx.q(60, 400), nodes))
    # larger random trees
    for i in range(ctx.q(120, 1500)):
        nodes = []
        n = rng.choice([5, 20, 60, 150])
        ns = names(rng, n)
        deep = rng.random() < .3
        for j in range(n):
            dirs = [0] + [x + 1 for x, m in enumerate(nodes) if m[1] == "d"]
            p = dirs[-1] if deep and rng.random() < .8 else rng.choice(dirs)
            k = rng.choice("ffffddlps" if not deep else "ddf")
            z = 0 if k != "f" else rng.choice(BIGS) if rng.random() < .3 else rng.randrange(1 << 16)
            nodes.append((p, k, z, ns[j][:40] if deep else ns[j], rng.choice([".", "..", "/", "/etc/passwd", "x"]) if k == "l" else ""))
        if deep:
            # keep paths short enough: no name longer than 20
            nodes = [(p, k, z, "%d%s" % (j, nm[:8].replace("/", "_")), t) for j, (p, k, z, nm, t) in enumerate(nodes)]
        lines.append(f01_line(rng.random() < .7, rng.choice(forms), n <= 20 and i < 60, nodes))
    # many entries in one directory: several batches of the listing
    lines.append(f01_line(1, "abs", 0, [(0, "f", j + 1, "entry-%03d-" % j + "q" * 90, "") for j in range(390)]))
    lines.append(f01_line(1, "abs", 1, [(0, "f", j + 1, "entry-%03d-" % j + "q" * 240, "") for j in range(200)]))
    # long paths, around the limit of a path
    for plen in list(range(4070, 4096)) + [1000, 2047, 2048, 3000, 4000]:
        for nm in (["abcd", "abcdefgh"], ["abcd", "abcde"], ["a", "abcdefghijklmnopqrstuvwxyzabcdefgh"], ["x" * 255]):
            for rec in (0, 1):
                nodes = [(0, "f", 10 ** j, x, "") for j, x in enumerate(nm)]
                lines.append(f01_line(rec, "pad%d" % plen, 0, nodes))
        # a directory whose name, cut, is that of another; an empty file whose name is a cut one
        nodes = [(0, "d", 0, "dir", ""), (1, "f", 5, "f", ""), (0, "d", 0, "dirlonger-than-that-one", ""), (3, "f", 100, "f", "")]
        lines.append(f01_line(1, "pad%d" % plen, 0, nodes))
    recs = ctx.drive(exe, lines, what="directory size", cwds=True)
    for k in range(8):
        shutil.rmtree(os.path.join(ctx.work, "scratch-%d" % k), ignore_errors=True)
    ctx.evals += sum(len(r["runs"]) for r in recs) - len(recs)
    ctx.extra["failing_operations"] = sum(x["hit"] > 0 for r in recs for x in r["runs"])
    ctx.sample(short(recs[6]))
    ctx.judge("files/DirTrace", "", recs, "directory size", describe=short, shards=8)


# ------------------------------------------------------------------------ F02
def f02(ctx):
    def cfg(v=""):
        return ('CONSTANT Variant = "%s"\nSPECIFICATION Spec\nINVARIANTS Durable InOrder Failed NoLeak\n%sCHECK_DEADLOCK FALSE\n'
                % (v, "" if v else "PROPERTY Ends\n"))
    ctx.model_check("files/SyncDesign", cfg())
    ctx.refutes("files/SyncDesign", ("folder_first", "no_folder", "no_flush", "leak", "masked"), cfg)
    rng = random.Random(ctx.seed)
    exe = ctx.exe("syncdrv", ["syncdrv.c", "sysmon.c", "acct.c"], lib=ctx.lib("std", cflags=("-O1", "-U_FORTIFY_SOURCE")), wraps=ACCT)
    paths = ["f", "d/g", "d/e/h", "d/e/.h", "sp ace", "l/g", "l/e/h", "d/m", "d/n", "l/n", "d/e", "l", "d", "d/../f", "d/./g", "d//g", "d///e//h", "./f",
             ".//f", "././d/g", "d/e/../g", "d/e/../../f", "missing", "d/missing", "nodir/x", "f/x", "d/g/x", "./missing", "l/../f", "d/e/../../l/g"]
    folders = ["d", "d/", "d/e", "d/e/", "l", "l/", ".", "./", "d/..", "d/e/..", "d/.", "f", "f/", "missing", "", "d//e//", "l/e", "d/m", "sp ace", "nodir/"]
    errs = [5, 13, 28, 122, 24, 4, 22, 9]       # EIO EACCES ENOSPC EDQUOT EMFILE EINTR EINVAL EBADF
    lines = []

    def add(fn, ab, p, alloc=-1, faults=()):
        lines.append("%s %d %s %d %d %s" % (fn, ab, hx(p), alloc, len(faults), " ".join("%s %d %d" % f for f in faults)))
    for fn in ("file", "folder"):
        lines.append("%s 3 - -1 0 " % fn)
    for fn in ("file", "folder", "both"):
        for p in paths if fn == "both" else paths + folders:
            for ab in (0, 1):
                if fn == "both" and ab == 0 and p == "":
                    continue
                add(fn, ab, p)
                for a in range(3):
                    add(fn, ab, p, a)
                for k in "ofc":
                    for at in range(2 if fn == "both" else 1):
                        for e in errs if ctx.thorough else rng.sample(errs, 3):
                            add(fn, ab, p, -1, [(k, at, e)])
                            if rng.random() < .3:
                                add(fn, ab, p, rng.randrange(3), [(k, at, e)])
                if fn == "both":
                    for ka, kb in itertools.product("ofc", repeat=2):
                        for _ in range(ctx.q(1, 4)):
                            a, b = rng.sample(errs, 2)
                            add(fn, ab, p, -1, [(ka, 0, a), (kb, 1, b)])
                            add(fn, ab, p, -1, [(ka, 0, a), (kb, 0, b)])
                            # the folder's open may be the first that goes wrong when the file's fails
                            add(fn, ab, p, -1, [("o", 1, a), (kb, 0, b)])
    # every error there is
    for fn in ("file", "folder", "both"):
        for e in range(1, 134):
            for k in "of":
                add(fn, rng.randrange(2), "d/e" if fn == "folder" else "d/g", -1, [(k, rng.randrange(1 + (fn == "both")), e)])
    for fn in ("file", "folder", "both"):
        fake = [("f", 0, 0), ("f", 1, 0)]
        add(fn, 2, "/etc", -1, fake)
        add(fn, 2, "//etc", -1, fake)
        for e in errs:
            add(fn, 2, "/etc", -1, [("o", 0, e)] + fake)
            if fn == "both":
                add(fn, 2, "/etc", -1, fake + [("o", 1, e)])
                add(fn, 2, "/etc", -1, [("f", 0, 0), ("f", 1, e)])
    recs = ctx.drive(exe, lines, what="sync helper", cwds=True)
    ctx.extra["failing_operations"] = sum(any(o["ret"] < 0 for o in r["ops"]) for r in recs)
    ctx.sample(short(recs[len(recs) // 2]))
    ctx.judge("files/SyncTrace", "", recs, "sync helper", describe=short, shards=8)


# ------------------------------------------------------------------------ F03
def f03(ctx):
    def cfg(v=""):
        return ('CONSTANTS Variant = "%s" Plan <- P\nSPECIFICATION Spec\nINVARIANTS Balanced Whole CloseOnExec\nCHECK_DEADLOCK FALSE\n' % v)
    ctx.model_check("files/ResourcesMC", cfg())
    ctx.refutes("files/ResourcesMC", ("forget_first", "forget_last", "unmarked", "half"), cfg)
    rng = random.Random(ctx.seed)
    exe = ctx.exe("fddrv", ["fddrv.c", "sysmon.c", "acct.c"], lib=ctx.lib("std", cflags=("-O1", "-U_FORTIFY_SOURCE")),
                  wraps=ACCT + ("fcntl", "fcntl64", "pipe", "pipe2", "inotify_init", "inotify_init1", "inotify_add_watch", "iconv_open", "iconv_close"))
    can = {"r": "nat", "w": "nat", "rw": "nat", "dir": "nat", "pr": "ny", "pw": "ny", "sock": "ny", "evt": "n"}
    lines = []
    for kind, al in can.items():
        subs = ["".join(c) for n in range(len(al) + 1) for c in itertools.combinations(al, n)]
        for pre in subs:
            for c in ("", "c", "C", "cC"):
                p = pre + c or "-"
                for fn in ("set", "has"):
                    lines.append("flag %s %s %s - -1 0" % (fn, kind, p))
                    for cmd in (1, 2, 3, 4):
                        lines.append("flag %s %s %s - %d %d" % (fn, kind, p, cmd, rng.choice([9, 22, 11, 4, 1, 12])))
                for arg in subs:
                    lines.append("flag add %s %s %s -1 0" % (kind, p, arg or "-"))
                    for cmd in (1, 2, 3, 4):
                        if rng.random() < ctx.q(.4, 1):
                            lines.append("flag add %s %s %s %d %d" % (kind, p, arg or "-", cmd, rng.choice([9, 22, 11, 4, 1, 12])))
    for fn in ("set", "has", "add"):
        for n in (-1, -2, 900, 1023, 1024, 65536, 2147483647, -2147483648):
            lines.append("flag %s bad %d n -1 0" % (fn, n))
        lines.append("flag %s closed - n -1 0" % fn)
    for kind, vs in (("mbox", 14), ("dynmbox", 14), ("inotify", 7), ("hash", 12), ("random", 4), ("safew", 10), ("utf8", 16), ("sync", 5)):
        for v in range(vs):
            lines.append("obj %s %d - 0 0" % (kind, v))
            lines.append("obj %s %d - 0 0 z" % (kind, v))
            for at in range(ctx.q(12, 40)):
                lines.append("obj %s %d a %d 12" % (kind, v, at))
            for at in range(4):
                for e in ((24, 23, 12, 13) if kind in ("mbox", "dynmbox", "inotify", "utf8") else ()):
                    lines.append("obj %s %d w %d %d" % (kind, v, at, e))
            if kind in ("mbox", "dynmbox", "safew", "random", "sync"):
                for at in range(ctx.q(25, 60)):
                    for e in rng.sample([5, 28, 24, 13, 12], ctx.q(1, 3)):
                        if kind == "random" and v:
                            continue      # no entropy: the process is ended, as documented
                        lines.append("obj %s %d s %d %d" % (kind, v, at, e))
    lines = [x for x in lines if not (x.startswith("obj random") and " a " in x and not x.startswith("obj random 0"))]
    recs = ctx.drive(exe, lines, what="descriptors", cwds=True)
    ctx.extra["failures_hit"] = sum(r["hit"] > 0 for r in recs)
    ctx.sample(short(recs[100]))
    ctx.sample(short(recs[-1]))
    ctx.judge("files/ResTrace", "", recs, "descriptors", describe=short, shards=8)


# ------------------------------------------------------------------------ I01
def i01(ctx):
    def cfg(n, v=""):
        return ('CONSTANTS MaxEvents = %d Stack = 3 Variant = "%s"\nSPECIFICATION Spec\nINVARIANTS NoLoss Complete\nCHECK_DEADLOCK FALSE\n' % (n, v))
    ctx.model_check("files/InotifyDesign", cfg(ctx.q(5, 7)), workers=8)
    ctx.refutes("files/InotifyDesign", ("stack", "recount", "strict_end", "fixed_step"), lambda v: cfg(4, v))
    rng = random.Random(ctx.seed)
    exe = ctx.exe("inodrv", ["inodrv.c", "acct.c"], lib=ctx.lib("std", cflags=("-O1", "-U_FORTIFY_SOURCE")), wraps=ACCT + ("ioctl", "read"))
    lens = [1, 2, 14, 15, 16, 17, 31, 32, 47, 63, 64, 100, 127, 128, 143, 200, 239, 240, 254, 255]
    lines = ["p", "p p", "c1 p p", "s p", "s s p", "s c1 s p", "i p", "i", "c255", "c255 p p c255 p"]
    # every sequence of up to 3 sizes, alone and with a nameless event at either end
    sizes = [1, 15, 16, 255]
    for n in (1, 2, 3):
        for t in itertools.product(sizes, repeat=n):
            c = " ".join("c%d" % x for x in t)
            lines += [c + " p", c + " s p", "s " + c + " p p", c + " i p"]
    # batches around the size of any small buffer, in steps of one event
    for size in lens:
        ev = 16 + (size + 1 + 15) // 16 * 16
        for total in (496, 512, 528, 1024, 4096, 8192):
            k = total // ev
            for d in (-1, 0, 1):
                if 0 < k + d <= 300:
                    lines.append(" ".join(["c%d" % size] * (k + d)) + rng.choice([" p", " s p", " i p", " p p", " s"]))
                    lines.append("s " + " ".join(["c%d" % size] * (k + d)) + " p")
    # exactly 512 from different events
    for _ in range(ctx.q(150, 2000)):
        left, ops = rng.choice([480, 496, 512, 528, 544, 1008, 1024, 1040]), []
        while left >= 32:
            n = rng.choice([x for x in lens if 16 + (x + 16) // 16 * 16 <= left])
            ops.append("c%d" % n)
            left -= 16 + (n + 16) // 16 * 16
        if left:
            ops.insert(rng.choice([0, len(ops)]), rng.choice(["s", "i"]))
        lines.append(" ".join(ops + ["p"]))

    def some(k, fresh=False):
        out = []
        for _ in range(k):
            r = rng.random()
            out.append("c%d" % rng.choice(lens) if r < .5 or (fresh and r < .8) else "r%d" % rng.choice(lens) if r < .6 else "b%d" % rng.choice(lens) if r < .7
                       else rng.choice("cm") + ("9" if r < .75 else "5") if fresh else rng.choice(["d", "w", "a", "s", "m", "d", "w", "s"]))
        return out

    def hooked():
        hs = []
        for _ in range(rng.randint(1, 3)):
            h = rng.choice(["I0", "J0", "R0", "S0", "K0", "K1", "K%d" % rng.randrange(8), "J0", "R0"])
            hs.append("%s:%s" % (h, ",".join(some(rng.choice([1, 1, 2, 5, 30]), True))))
        return "p%s@%s" % (rng.choice(["", "", "", "e", "n"]), ";".join(hs))
    for _ in range(ctx.q(700, 12000)):
        ops = []
        for _ in range(rng.randint(1, 7)):
            ops += some(rng.choice([0, 1, 2, 3, 8, 20, 40]))
            ops.append(rng.choice(["p", "p", "p p", "pe", "pn", hooked(), hooked()]))
        lines.append(" ".join(ops))
    for n in (500, 3000) if not ctx.thorough else (500, 3000, 8000):
        lines.append(" ".join(["c255"] * n) + " p")
        lines.append(" ".join(["c%d" % rng.choice(lens) for _ in range(n)]) + " p p")
    # more than the kernel keeps
    lines += ["x0 p", "x-1 p s p", "c15 x5 p p s p"] + (["x1 p s p", "x300 p x2 p"] if ctx.thorough else [])
    recs = ctx.drive(exe, lines, what="inotify", cwds=True)
    for k in range(8):
        shutil.rmtree(os.path.join(ctx.work, "scratch-%d" % k), ignore_errors=True)
    ctx.extra["events"] = sum(1 for r in recs for e in r["log"] if e["t"] == "cb")
    ctx.sample(short(recs[20]))
    ctx.judge("files/InotifyTrace", "", recs, "inotify", describe=short, shards=8)
