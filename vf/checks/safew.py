"""S01-S04: the safe-write API under sysmon, judged by specs/safew."""
import json
import os
import random
import shutil
from concurrent.futures import ThreadPoolExecutor

from vf.core import CheckError, Violation

P4 = ("P", "T", "C", "K")


def exe(ctx):
    if not hasattr(ctx, "swexe"):
        ctx.swexe = ctx.exe("safewdrv", ["safewdrv.c", "sysmon.c"], lib=ctx.lib("std"),
                            wraps=("malloc", "calloc", "realloc"))
    return ctx.swexe


def threadx(ctx):
    """The driver with the library as it is built for ThreadX."""
    if not hasattr(ctx, "swtx"):
        ctx.swtx = ctx.exe("safewdrv-threadx", ["safewdrv.c", "sysmon.c"], lib=ctx.lib("threadx", cflags=("-O1", "-DTHREADX_OS"), skip=("timetools.c",)),
                           wraps=("malloc", "calloc", "realloc"))
    return ctx.swtx


def run(ctx, cases, ops, nproc=8, e=None):
    """cases: dicts with prog,n1,n2,state(list),faults,path; returns records."""
    e = e or exe(ctx)
    parts = [list(range(len(cases)))[k::nproc] for k in range(nproc)]
    parts = [p for p in parts if p]

    def one(k):
        d = os.path.join(ctx.work, "scratch%d" % k)
        os.makedirs(d, exist_ok=True)
        inp = "".join("%d %s %d %d %s %s %s\n" % (i, cases[i]["prog"], cases[i]["n1"], cases[i]["n2"],
                                                  ",".join(cases[i]["state"]), cases[i].get("faults") or "-",
                                                  cases[i].get("path", "f")) for i in parts[k])
        rc, out, err = ctx.run([e, d] + (["ops"] if ops else []), input=inp, timeout=600, what="safe-write driver")
        return out
    with ThreadPoolExecutor(len(parts) or 1) as ex:
        outs = list(ex.map(one, range(len(parts))))
    recs = [None] * len(cases)
    for out in outs:
        for line in out.splitlines():
            r = json.loads(line)
            i = int(r.pop("id"))
            if "learn" in r:
                raise Violation("a plain commit with checksum of %d/%d bytes failed" % (cases[i]["n1"], cases[i]["n2"]),
                                {"case": cases[i]})
            u = r.pop("user")
            r["bad"] = u.count("!")
            r["opened"] = 0 if "O" in u else 1
            r["leak"] = int(u.rstrip()[-1:]) if u[-1:].isdigit() else 0
            r["init"] = cases[i]["state"]
            r["case"] = {k: cases[i][k] for k in ("prog", "n1", "n2", "faults", "path") if k in cases[i]}
            recs[i] = r
    if any(r is None for r in recs):
        raise CheckError("driver lost records")
    ctx.evals += len(recs)
    return recs


def judge(ctx, mode, recs, what, emit=False):
    shards = 8 if len(recs) > 1500 else 4 if len(recs) > 200 else 1
    crash = [None] * len(recs)
    bads = []
    parts = [list(range(len(recs)))[k::shards] for k in range(shards)]

    def one(idx):
        path = os.path.join(ctx.work, "rec-%s-%d-%d.ndjson" % (mode, id(idx), idx[0]))
        with open(path, "w") as f:
            for i in idx:
                f.write(json.dumps(recs[i]) + "\n")
        res = ctx.tlc("safew/SafewTrace", "", env={"TRACE": path, "MODE": mode})
        if not res.ok:
            raise CheckError("TLC failed on SafewTrace: " + res.out[-2500:])
        if res.printed("DONE")[-1]["n"] != len(idx):
            raise CheckError("SafewTrace judged too few")
        if res.printed("DISAGREE"):
            raise CheckError("file system model disagrees with the real one: %s" % json.dumps(res.printed("DISAGREE")[0])[:1500])
        for c in res.printed("CRASH"):
            crash[idx[c["i"] - 1]] = c["st"]
        os.unlink(path)
        return [recs[idx[b["i"] - 1]] for b in res.printed("BAD")]
    with ThreadPoolExecutor(shards) as ex:
        for b in ex.map(one, [p for p in parts if p]):
            bads += b
    ctx.traces += len(recs)
    if bads:
        b = bads[0]
        raise Violation("%s: %s in state %s with faults %s: returned %s and left %s" % (
            what, b["case"]["prog"], b["init"], b["case"].get("faults") or "none", b["ret"], b["fin"]),
            {"record": b, "rejected": len(bads), "of": len(recs)})
    return crash


SCRIPTS = [("w100", 40, 100), ("p30,w20,p50", 70, 100), ("w5000,w5000", 9000, 10000), ("w1", 1, 1), ("m3000,p10,w700", 4096, 3710),
           ("w4096", 4097, 4096), ("w1,w1,w1,w9000", 20000, 9003), ("w20,b9000,m700,w3", 50, 9723),
           ("w3000,p6000,p500", 60, 9500)]


def states_tmp(rng, n, v):
    """Leftovers of earlier sessions next to a target version."""
    T = ["-", "e", "h2", "h1", "2", "1", "g"]
    return [[v, t, "-", "-"] for t in T]


def s01(ctx):
    design(ctx)
    scripts = SCRIPTS if ctx.thorough else SCRIPTS[:6]
    rng = random.Random(ctx.seed)
    cases = []
    for items, n1, n2 in scripts:
        for v in ("-", "1"):
            for t in ("-", "h2", "1", "e") if ctx.thorough else ("-", "h2"):
                for end in ("commit", "crc", "rollback", "none"):
                    c = "1" if v == "1" and end == "crc" else "-"
                    cases.append(dict(prog="w:%s:%s" % (items, end), n1=n1, n2=n2, state=[v, t, c, "-"]))
        cases.append(dict(prog="w:%s:none+w:%s:commit" % (items, items), n1=n1, n2=n2, state=["1", "-", "-", "-"]))
        cases.append(dict(prog="w:%s:rollback+w:%s:commit" % (items, items), n1=n1, n2=n2, state=["1", "-", "-", "-"]))
    recs = run(ctx, cases, True)
    for r in recs:
        if r["case"]["prog"].endswith(("rollback", "none")):
            r["ret"] = -1          # nothing was committed
            r["fin_"] = 0
    ctx.sample(json.dumps({k: recs[0][k] for k in ("case", "init", "ret", "fin")}) + " ops: " +
               " ".join("%s(%s%s)" % (o["o"], o["n"], "," + o["m"] if o["m"] else "") for o in recs[0]["ops"]))
    judge(ctx, "S01", recs, "target not atomic")
    # a crash while the session is coping with a failure
    rng = random.Random(ctx.seed)
    arng = random.Random(ctx.seed * 7 + 1)
    faulty = []
    for c, r in zip(cases, recs):
        if "+" in c["prog"] or c["state"][1] != "-":
            continue
        fl = fault_list(r["ops"])
        for i, o in enumerate(r["ops"]):
            if o["o"] in ("rename", "fsync"):
                faulty += [dict(c, faults="%d:%d" % (i, e)) for e in ([17, 18] + arng.sample(range(1, 134), ctx.q(4, 60)))]
        faulty += [dict(c, faults=f) for f in (fl if ctx.thorough or len(fl) < 45 else rng.sample(fl, 45))]
    fr = [r for r in run(ctx, faulty, True) if r["hit"] > 0]
    ctx.extra["faulty_sessions"] = len(fr)
    judge(ctx, "S01F", fr, "target not atomic when an operation fails")
    # real kills at every operation, with the file system deciding
    kills = []
    for c, r in zip(cases, recs):
        for at in range(len(r["ops"])):
            kills.append(dict(c, faults="%d:k" % at))
    kr = run(ctx, kills, False)
    for r in kr:
        r["ops"] = []
        r["killed"] = 0
        r["what"] = "kill"
    bad = [r for r in kr if False]
    judge_kill(ctx, kr)
    ctx.extra["kill_points"] = len(kr)


def judge_kill(ctx, kr):
    for r in kr:
        r.pop("ops", None)
    judge(ctx, "S01K", kr, "kill left a mixture in the target")


def closure(ctx, world, start, commits, n1, n2, limit=4000):
    """Crash/recover closure: every state any crash can leave, under the real
    recovery code, to a fixpoint."""
    had, may = world
    frontier = set()
    seen = set()
    recs = run(ctx, [dict(prog=p, n1=n1, n2=n2, state=list(start)) for p in commits], True)
    for r in recs:
        r["what"], r["had"], r["mayv"] = "commit", had, may
    for st in judge(ctx, "S03", recs, "checksummed commit", emit=True):
        frontier |= {tuple(x) for x in st}
    rounds = 0
    while frontier - seen:
        new = sorted(frontier - seen)
        seen |= set(new)
        if len(seen) > limit:
            raise CheckError("crash closure does not converge")
        recs = run(ctx, [dict(prog="check", n1=n1, n2=n2, state=list(s)) for s in new], True)
        for r in recs:
            r["what"], r["had"], r["mayv"] = "check", had, may
        for st in judge(ctx, "S03", recs, "recovery after crash (round %d)" % (rounds + 1), emit=True):
            frontier |= {tuple(x) for x in st}
        rounds += 1
        # and real kills inside the recovery, followed by a recovery
        kills = [(r, at) for r in recs for at in range(len(r["ops"]))]
        kr = run(ctx, [dict(prog="check", n1=n1, n2=n2, state=r["init"], faults="%d:k" % at) for r, at in kills], False)
        left = sorted({tuple(x["fin"]) for x in kr})
        mapped = []
        for t in left:
            # contents the observer cannot name exist in several variants; the
            # model's closure covers them, here take the cut ones
            mapped.append(tuple("h2" if x == "x" else x for x in t))
        frontier |= set(mapped)
    return len(seen), rounds


DESIGN = ("SyncPayload", "SyncCrc", "PayloadFirst", "SyncRecovered", "ToleratesShort", "KeepsOldCrc")


def design(ctx):
    """The design model, and the defects TLC has to find in its variants."""
    def cfg(crashes, faults, erase="FALSE", off=None):
        return "SPECIFICATION Spec\nCONSTANTS\n" + "".join(
            " %s = %s\n" % (k, "FALSE" if k == off else "TRUE") for k in DESIGN) + \
            (" EraseOnError = %s\n MaxCrashes = %d\n MaxFaults = %d\nINVARIANTS Atomic AtomicOnDisk Recovers NeverLost Success\n"
             "CHECK_DEADLOCK FALSE\n" % (erase, crashes, faults))
    ctx.model_check("safew/SafewDesign", cfg(*ctx.q((3, 1), (5, 3))))

    def ref(off):
        ctx.refute("safew/SafewDesign", cfg(3, 1, "TRUE" if off == "EraseOnError" else "FALSE", off), "without " + off, workers=1)
    with ThreadPoolExecutor(7) as ex:
        list(ex.map(ref, DESIGN + ("EraseOnError",)))


def s03(ctx):
    design(ctx)
    sizes = ctx.q([(60, 100, "w100"), (5000, 9000, "w4000,p1000,w4000")],
                  [(60, 100, "w100"), (5000, 9000, "w4000,p1000,w4000"), (1, 1, "w1"), (100, 100, "p50,w50"), (70000, 3, "w3"),
                   (4096, 8192, "w4096,w4096")])
    tot = 0
    for n1, n2, items in sizes:
        for world, start in (((1, ["1", "2"]), ["1", "-", "1", "-"]), ((0, ["2"]), ["-", "-", "-", "-"])):
            n, rounds = closure(ctx, world, start, ["w:%s:crc" % items], n1, n2)
            tot += n
            ctx.log("sizes %d->%d, previous version %s: %d crash states, fixpoint after %d rounds" %
                    (n1, n2, "present" if world[0] else "absent", n, rounds))
            ctx.sample("closure from %s: %d states, %d rounds" % (start, n, rounds))
    ctx.extra["crash_states"] = tot


ERRS = {"open": [5, 24, 12, 28], "write": [5, 28], "fsync": [5, 28], "close": [5], "rename": [5, 28], "unlink": [5],
        "read": [5], "trunc": [5]}


def fault_list(ops, errs=ERRS, persistent=True):
    out = []
    for i, o in enumerate(ops):
        for e in errs.get(o["o"], []):
            if o["o"] == "unlink" and o["r"] < 0:
                continue
            out.append("%d:%d" % (i, e))
        if o["o"] == "write" and o["r"] > 1:
            out += ["%d:s2" % i, "%d:s2,%d:28" % (i, i + 1)]
    if persistent:
        for k, e in (("write", 28), ("write", 5), ("fsync", 5), ("rename", 5), ("open", 24), ("close", 5), ("read", 5)):
            n = len([o for o in ops if o["o"] == k])
            out += ["%s@%d+:%d" % (k, j, e) for j in range(n)]
    return out


def s02(ctx):
    design(ctx)
    scripts = SCRIPTS if ctx.thorough else [SCRIPTS[0], SCRIPTS[1], SCRIPTS[2], SCRIPTS[6], SCRIPTS[7], SCRIPTS[8]]
    base = []
    for items, n1, n2 in scripts:
        for st in (["-", "-", "-", "-"], ["1", "-", "1", "-"], ["1", "h2", "1", "-"]):
            for end in ("commit", "crc", "rollback"):
                base.append(dict(prog="w:%s:%s" % (items, end), n1=n1, n2=n2, state=st, end=end))
                if ctx.thorough or items == "w5000,w5000":
                    base.append(dict(prog="w:%s:%s" % (items.replace("w", "q"), end), n1=n1, n2=n2, state=st, end=end))
    # contents of many sizes around the buffer sizes, healthy disk
    sizes = [0, 1, 2, 3, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 100000] + ctx.q([], list(range(4000, 4200)))
    for n in sizes:
        for end in ("commit", "crc"):
            for it in ("w%d" % n, "w%d,w%d" % (n // 2, n - n // 2), "p%d,w%d" % (n // 3, n - n // 3), "m%d" % n, "b%d" % n,
                       "b0,w%d" % n, "w%d,p0,b0" % n):
                base.append(dict(prog="w:%s:%s" % (it, end), n1=77, n2=n, state=["1", "-", "1", "-"], end=end))
    recs = run(ctx, base, True)
    faulty = []
    arng = random.Random(ctx.seed * 7 + 2)
    for b, r in zip(base, recs):
        r["end"] = b["end"]
        if b["n1"] == 77:
            continue
        if b["state"][1] == "-" and (ctx.thorough or b["state"][0] == "1"):
            # every error there is
            for i, o in enumerate(r["ops"]):
                if o["o"] in ERRS and not (o["o"] == "unlink" and o["r"] < 0):
                    es = set(arng.sample(range(1, 134), ctx.q(6, 133))) | ({4, 11} if o["o"] == "write" else set())
                    # (that a file which is there is not there cannot be)
                    faulty += [dict(b, faults="%d:%d" % (i, e)) for e in sorted(es) if not (e == 2 and o["o"] == "unlink")]
        for f in fault_list(r["ops"]) + ["alloc@%d" % k for k in range(1, 4)]:
            faulty.append(dict(b, faults=f))
        if ctx.thorough and b["n2"] <= 10000:
            fl = fault_list(r["ops"], persistent=False)
            rng = random.Random(ctx.seed + len(fl))
            for _ in range(150):
                a, c = rng.choice(fl), rng.choice(fl)
                faulty.append(dict(b, faults=a + "," + c))
    for r in recs:
        r.pop("ops")
    fr = run(ctx, faulty, True)
    for b, r in zip(faulty, fr):
        r["end"] = b["end"]
    fr = [r for r in fr if r["hit"] > 0 or r["ret"] < 0]
    ctx.extra["faulty_runs"] = len(fr)
    ctx.sample(json.dumps(fr[len(fr) // 2]))
    judge(ctx, "S02", recs + fr, "dishonest or harmful commit")
    s02_long(ctx)
    s02_threadx(ctx)


def s02_threadx(ctx):
    """Where formatted text passes through a buffer of bounded size: it is written whole, or the session fails."""
    base = []
    for n in [1, 2, 50, 126, 127, 128, 129, 130, 255, 256, 1000, 5000]:
        for it, fmt in (("p%d" % n, n), ("w10,p%d" % n, n), ("p%d,w300" % n, n), ("p20,p%d,p30" % n, n), ("w%d" % n, 0), ("m%d,p5" % n, 5)):
            tot = sum(int(x[1:]) for x in it.split(","))
            for st in (["-", "-", "-", "-"], ["1", "h2", "1", "-"]):
                for end in ("commit", "crc", "rollback"):
                    base.append(dict(prog="w:%s:%s" % (it, end), n1=60, n2=tot, state=st, end=end, fmt=fmt))
    e = threadx(ctx)
    recs = run(ctx, base, True, e=e)
    faulty = []
    rng = random.Random(ctx.seed)
    for b, r in zip(base, recs):
        r["end"], r["fmt"] = b["end"], b["fmt"]
        fl = fault_list(r.pop("ops"))
        for f in fl if ctx.thorough else rng.sample(fl, min(3, len(fl))):
            faulty.append(dict(b, faults=f))
    fr = run(ctx, faulty, True, e=e)
    for b, r in zip(faulty, fr):
        r["end"], r["fmt"] = b["end"], b["fmt"]
    judge(ctx, "S02X", recs + [r for r in fr if r["hit"] > 0 or r["ret"] < 0], "dishonest or harmful commit (ThreadX)")


def s02_long(ctx):
    """Long paths: refused with nothing touched, or as any other."""
    cases = []
    for ln in list(range(110, 136)) + [200, 245]:
        for st in (["-", "-", "-", "-"], ["1", "-", "1", "-"]):
            for end in ("commit", "crc", "rollback"):
                for pre in ("", "./", ".//"):
                    cases.append(dict(prog="w:w100:%s" % end, n1=60, n2=100, state=st, end=end, path=pre + "n" * (ln - len(pre))))
    recs = run(ctx, cases, False)
    for c, r in zip(cases, recs):
        r["end"] = c["end"]
        if r["opened"] == 0 and len(c["path"]) <= 115:
            raise Violation("a file of %d characters cannot be opened" % len(c["path"]), {"record": r})
    judge(ctx, "S02L", recs, "over-long path")


def s04(ctx):
    design(ctx)
    PT = ["-", "1", "2", "g", "e", "b1", "b2"] if ctx.thorough else ["-", "1", "2", "b1"]
    CK = ["-", "1", "2", "g", "e", "s1", "s2", "b2", "z1"] if ctx.thorough else ["-", "1", "2", "g", "e", "s2"]
    sizes = ctx.q([(60, 100)], [(60, 100), (1, 2), (4096, 4096), (9000, 5000)])
    base = []
    for n1, n2 in sizes:
        for p in PT:
            for t in PT:
                for c in CK:
                    for k in CK:
                        # (four blank bytes may well be what belongs to nothing at all)
                        if "z1" in (c, k) and "e" in (p, t):
                            continue
                        base.append(dict(prog="check", n1=n1, n2=n2, state=[p, t, c, k]))
        # one byte off, at either end and between; one byte too many or few
        for bad in ("b", "m", "f", "l"):
            for v, o in (("1", "2"), ("2", "1")):
                for st in ([bad + v, "-", v, "-"], [bad + v, o, v, o], [bad + v, v, v, v], ["-", bad + v, "-", v], [o, bad + v, o, v],
                           [v, "-", bad + v, "-"], [v, o, bad + v, o], [o, v, o, bad + v], ["-", v, "-", bad + v], [v, bad + v, v, bad + v]):
                    # a checksum with something behind it may be taken as it is
                    if bad == "l" and "l" in st[2] + st[3]:
                        continue
                    base.append(dict(prog="check", n1=n1, n2=n2, state=st))
    for v, o in (("1", "2"), ("2", "1")):
        # checksums of all ones, of all zeroes: as good as any other
        for st in ([v, "-", "G", "-"], ["-", v, "-", "G"], [v, o, "G", o], [v, o, v, "G"], [v, "-", "G", v], [v, o, "G", "G"],
                   [v, "-", "z" + v, "-"], ["-", v, "-", "z" + v], [v, o, "z" + o, "z" + o]):
            base.append(dict(prog="check", n1=n1, n2=n2, state=st))
    for ln in list(range(118, 128)):
        for st in (["1", "-", "1", "-"], ["1", "2", "1", "2"], ["2", "-", "1", "2"], ["-", "2", "-", "2"], ["1", "-", "2", "-"]):
            base.append(dict(prog="check", n1=60, n2=100, state=st, path="x" * ln))
    for n in (0, 1, 3, 4095, 4096, 4097, 65536, 200000):
        for st in (["2", "-", "2", "-"], ["1", "2", "1", "2"], ["-", "2", "-", "2"], ["2", "-", "-", "2"], ["2", "-", "1", "2"]):
            base.append(dict(prog="check", n1=60, n2=n, state=st))
    recs = run(ctx, base, True)
    # twice in a row: same answer, nothing changes
    again = [dict(b, state=r["fin"]) for b, r in zip(base, recs) if not any(x in ("x", "e") for x in r["fin"])]
    ar = run(ctx, again, False)
    faulty = []
    rng = random.Random(ctx.seed)
    for b, r in zip(base, recs):
        if "path" in b or b["n2"] > 20000:
            continue
        fl = fault_list(r["ops"], {"open": [24, 13], "read": [5], "rename": [5], "close": [5], "unlink": [5], "fsync": [5]}, False)
        fl += ["open@0+:24", "open@1+:24", "open@2+:24", "read@0+:5", "read@1+:5", "rename@0+:28", "fsync@0+:5"]
        if r["ret"] != 0 and not ctx.thorough:
            fl = rng.sample(fl, min(2, len(fl)))
        # every error that does not say that the file is not there
        for i, o in enumerate(r["ops"]):
            if o["o"] in ("open", "read", "fsync", "rename") and rng.random() < ctx.q(.25, 1):
                fl.append("%d:%d" % (i, rng.choice([e for e in range(1, 134) if e not in (2, 4, 20, 36, 40)])))
        for f in fl:
            faulty.append(dict(b, faults=f))
    fr = [r for r in run(ctx, faulty, False) if r["hit"] > 0]
    for r in recs:
        r.pop("ops")
    ctx.extra["faulty_runs"] = len(fr)
    ctx.sample(json.dumps(recs[len(recs) // 2]))
    ctx.sample(json.dumps(fr[len(fr) // 2]))
    judge(ctx, "S04", recs + ar + fr, "recovery check")
    # over-long paths are refused and nothing is touched
    lp = [dict(prog="check", n1=60, n2=100, state=["1", "2", "1", "2"], path=x + "f" * 200) for x in ("", "./")]
    for ln in (128, 130, 135, 140, 200):
        lp.append(dict(prog="check", n1=60, n2=100, state=["1", "-", "1", "-"], path="y" * ln))
    judge(ctx, "S04L", run(ctx, lp, False), "over-long path")
