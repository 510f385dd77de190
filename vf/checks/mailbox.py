"""M01 M02 D01 D02 D03: mailboxes under the deterministic scheduler."""
import json
import random
import re
from concurrent.futures import ThreadPoolExecutor

from vf.core import CheckError, Violation

WRAPS = ("pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock "
         "pthread_mutex_timedlock pthread_mutex_unlock pthread_cond_init pthread_cond_destroy "
         "pthread_cond_wait pthread_cond_timedwait pthread_cond_clockwait pthread_cond_signal "
         "pthread_cond_broadcast gettimeofday clock_gettime time nanosleep clock_nanosleep usleep "
         "sched_yield pipe pipe2 read write poll ppoll select memcpy").split()


def build(ctx):
    if hasattr(ctx, "mboxexe"):
        return ctx.mboxexe
    lib = ctx.lib("tsan", cflags=("-O1", "-fsanitize=thread", "-fno-builtin-memcpy"))
    ctx.mboxexe = ctx.exe("mboxdrv", ["mboxdrv.c", "fiber.c"], lib=lib, wraps=WRAPS)
    return ctx.mboxexe


class Sc:
    """One scenario line of the driver."""

    def __init__(self, kind, threads, maxsz, budget=2, mem=0, eintr=0, spur=0, early=0, rnd=0, seed=1,
                 runs=4000, permille=100, pipesz=4096, pre="-"):
        self.kind, self.threads = kind, threads
        self.line = "%s %d %d %d %d %d %d %d %d %d %d %d %s | %s" % (
            kind, budget, mem, eintr, spur, early, rnd, seed, runs, permille, maxsz, pipesz, pre,
            " | ".join(threads))


def run_driver(ctx, exe, scs, secs, nproc=8):
    """Run the scenarios (spread over processes); returns histories."""
    parts = [[(i, s) for i, s in enumerate(scs)][k::nproc] for k in range(nproc)]
    parts = [p for p in parts if p]
    hist, stats = [], {"runs": 0, "exhausted": 0, "scenarios": len(scs)}

    def one(part):
        inp = "".join(s.line + "\n" for _, s in part)
        return ctx.run([exe, str(secs)], input=inp, timeout=secs * len(part) * 3 + 120, what="mailbox driver")

    with ThreadPoolExecutor(len(parts)) as ex:
        outs = list(ex.map(one, parts))
    for part, (rc, out, err) in zip(parts, outs):
        for line in out.splitlines():
            r = json.loads(line)
            gi = part[r["sc"]][0]
            for e in r["ev"]:
                if "out" in e:
                    e["out"] = e["out"].strip()
            hist.append({"sc": gi, "ev": r["ev"]})
        for m in re.finditer(r"^STAT (\d+) (\d+) (\d+) (\d+)$", err, re.M):
            stats["runs"] += int(m.group(2))
            stats["exhausted"] += int(m.group(4))
        m = re.search(r"TOTAL switches=(\d+) points=(\d+) eintr=(\d+) spurious=(\d+) fires=(\d+) stuck=(\d+)", err)
        if m:
            for k, v in zip(("switches", "choice_points", "eintr_injected", "spurious_wakeups",
                             "timeouts_fired", "runs_with_all_asleep"), m.groups()):
                stats[k] = stats.get(k, 0) + int(v)
    return hist, stats


def judge(ctx, kind, hist, scs, obs, flow):
    cfg = """SPECIFICATION Spec
CONSTANTS Obs = %s
 Flow = %s
 Kind = "%s"
POSTCONDITION Report
CHECK_DEADLOCK FALSE
""" % ("TRUE" if obs else "FALSE", "TRUE" if flow else "FALSE", kind)
    shards = 8 if len(hist) > 2000 else 4 if len(hist) > 300 else 1
    bad = ctx.validate("mbox/QueueTrace", cfg, hist, shards=shards)
    if bad:
        b = min(bad, key=lambda x: x["at"])
        ev = b["hist"]["ev"]
        at = b["at"]
        rej = ev[at - 1]
        if rej.get("e") == "ret":    # show the call it belongs to
            calls = [e for e in ev[:at - 1] if e.get("e") == "call" and e.get("t") == rej.get("t")]
            rej = dict(rej, call=calls[-1] if calls else None)
        raise Violation("%s history not explained by the specification at event %d: %s" %
                        (kind, at, json.dumps(rej)),
                        {"scenario": scs[b["hist"]["sc"]].line, "rejected_at": at, "history": ev[:at + 3],
                         "rejected_histories": len(bad), "of": len(hist)})


def drive(ctx, kind, scs, secs, obs, flow):
    exe = build(ctx)
    hist, stats = run_driver(ctx, exe, scs, secs)
    ctx.log("%d scenarios, %d schedules executed, %d distinct histories" % (len(scs), stats["runs"], len(hist)))
    ctx.extra.update(stats)
    ctx.extra["schedules_executed"] = stats.pop("runs")
    ctx.evals = ctx.extra["schedules_executed"]
    for s in scs[:3]:
        ctx.sample(s.line)
    if hist:
        ctx.sample(json.dumps(max(hist, key=lambda x: len(x["ev"]))["ev"])[:1200])
    judge(ctx, kind, hist, scs, obs, flow)


# ------------------------------------------------------------------- dynmbox
MAXD = 65532


def wrap_pre(off):
    """Prefill sequence leaving the ring's cursors at offset `off` (mod 65536)
    in the current layout; any layout gets a valid sequence."""
    seq = []
    while off > 0:
        n = min(off - 4, 65532) if off >= 4 else 0
        seq += [str(max(n, 0)), "r"]
        off -= max(n, 0) + 4
    return ",".join(seq) or "-"


def dyn_scs(ctx, rng, focus):
    t = ctx.thorough
    B = "30000"
    S = []
    runs = ctx.q(6000, 60000)
    mem = 1

    def add(threads, **kw):
        kw.setdefault("runs", runs)
        S.append(Sc("dyn", threads, kw.pop("maxsz", MAXD), **kw))
    # exhaustive small schedules, switch points at calls and at every shared access
    add(["p10 p20", "k k k"], budget=2, mem=mem)
    add(["p10 p20 p30", "w d w d"], budget=2, mem=mem)
    add(["p10 p20", "c c"], budget=3, mem=0)
    add(["p10 p20 p30", "c d k"], budget=3, mem=0)
    add(["p0 p1 p0", "c c d"], budget=2, mem=mem)
    add(["p30000 p30000 p30000", "k k k"], budget=2, mem=mem)
    add(["p40000 b40000/0 p10", "c c c"], budget=2, mem=mem)
    add(["b40000/0 b40000/0 b40000/0", "c c c"], budget=3, mem=0)
    add(["b40000/0 b40000/0 b65532/0", "k k w d"], budget=2, mem=mem)
    add(["b40000/100 b40000/100 p5", "z50 k z80 d"], budget=3, mem=0, early=1)
    add(["b40000/100 b40000/100 b40000/250", "z150 c c"], budget=3, mem=0, spur=1)
    add(["b40000/0 b40000/0 b30000/0 p1", "z1 k z1 k k"], budget=3, mem=0, spur=1)
    add(["b60000/7 b60000/11 b20/13 b65532/17", "z9 k"], budget=2, mem=mem, spur=1)
    # small messages queued while a big blocking push waits: several reads needed
    add(["p10000 p10000 p20000 p20000 b50000/0 b10/0", "k k k k k k"], budget=2, mem=0)
    add(["p10000 p10000 p20000 p20000 b50000/500 b10/0", "z100 k z100 k z100 k z100 k"], budget=2, mem=0, spur=1, early=1)
    add(["p20 i0 i4 b30/5 i5 i6", "i2 i3 c c d"], budget=2, mem=0)
    add(["p10 i1 i7 i8 i9 p20", "k d"], budget=2, mem=0, maxsz=100)
    # around the last byte: messages that fit, or lack one to eight bytes
    for a in (0, 100, 32764, 65000):
        for lack in range(-1, 9):
            z = min(MAXD, MAXD - a - 4 + lack)
            add(["p%d b%d/20 p1" % (a, z), "z50 k d"], budget=1, mem=0, spur=1, runs=60)
            add(["p%d p%d b%d/0" % (a, z, z), "z5 k z5 k d"], budget=1, mem=0, runs=60)
            add(["b%d/7 b%d/0" % (a, z), "z9 k d"], budget=1, mem=0, early=1, runs=60)
    # large time-outs
    for tmo in (1, 999, 1000, 1001, 60000, 4294967, 4294968, 4294967295, 2147483648, 71582789):
        add(["p65532 b10/%d b10/3" % tmo], budget=1, mem=0, spur=1)
        add(["p65532 b65532/%d" % tmo, "z%d k" % max(1, min(tmo, 4000000000) // 1000 + 1)], budget=1, mem=0)
    # the wall clock is set, forwards or back, while a push waits or is about to
    for st in (500, -500, 3600000, -3600000, 99, -1):
        add(["b65532/100 b40000/100 p5", "s%d z150 k" % st], budget=2, mem=0, spur=1)
        add(["b65532/100 b40000/100 p5", "z50 s%d z30 k s%d" % (st, -st)], budget=2, mem=0)
        add(["b65532/0 b40000/70 b65532/0", "z50 s%d z50 k k" % st], budget=2, mem=0, early=1)
    # message sizes and wrap positions: every residue of header/payload splits
    offs = [0, 1, 2, 3, 4, 5, 7, 8, 65535, 65534, 65533, 65532, 65531, 65530, 65529, 65528, 65527, 65526, 65520]
    offs += [rng.randrange(65536) for _ in range(ctx.q(10, 200))]
    for o in offs:
        if o and o < 4:
            o += 65536
        szs = [rng.choice([0, 1, 2, 3, 4, 5, 8, 100, 4095, 4096, 4097, 20000, 65532]) for _ in range(3)]
        add(["p%d b%d/0 b%d/0" % tuple(szs), "c c c"], budget=1, mem=0, pre=wrap_pre(o), runs=60)
    for mx in (0, 1, 2, 100, 4096, 65531, 65532):
        add(["p%d b%d/0 p0 b%d/0" % (mx, mx, mx // 2), "c c d"], budget=1, mem=0, maxsz=mx, runs=200)
    # long random workloads, sequential and threaded
    for i in range(ctx.q(24, 300)):
        style = i % 3
        sizes = {0: lambda: rng.randrange(0, 64), 1: lambda: rng.choice([0, 1, 3, 4, 5, 7, 9, rng.randrange(3000)]),
                 2: lambda: rng.randrange(0, 65533)}[style]
        n = rng.randrange(10, 60)
        prod = []
        for _ in range(n):
            r = rng.random()
            prod.append("p%d" % sizes() if r < .6 else "b%d/%d" % (sizes(), rng.choice([0, 0, 0, 5, 50])))
        cons = [rng.choice(["k", "c", "c", "d", "z3", "w"]) for _ in range(n)]
        if style == 2 or any(x.startswith("b") for x in prod):
            pass
        add([" ".join(prod), " ".join(cons)], rnd=1, budget=40, permille=rng.choice([5, 30, 150]), mem=i % 2,
            spur=1, early=i % 4 == 3, seed=ctx.seed * 1000 + i, runs=ctx.q(12, 60))
    # fill to the brim with small ones (notification capacity), default pipe
    add(["p0 " * 300 + "b65000/0 p0 p1", "k " * 150 + "c " * 151 + "d"], rnd=1, budget=10, permille=5, mem=0, runs=ctx.q(6, 40),
        seed=ctx.seed, pipesz=0)
    add([" ".join("p%d" % (200 + i) for i in range(330)), " ".join(["k"] * 100 + ["d"])], rnd=1, budget=10,
        permille=5, mem=0, runs=ctx.q(6, 40), seed=ctx.seed, pipesz=0)
    # more messages than the notification channel may be able to hold bytes: a pipe of one page, of two, of the default size
    for pipe in (4096, 8192, 0):
        for ops in ("P4095 K4095 K1", "P4096 K4096 P1 K2", "P4097 K1 p7 K4096 k K1 k", "P4100 K4095 P4 K2 P2 K9000",
                    "P20000 K1 P1 K9000 P9000 K20000", "P5000 p9 K5000 k P4097 K4000 b3/0 K97 k K5 k"):
            add([ops], budget=0, mem=0, pipesz=pipe, runs=1)
    return S


def dyn_design(ctx):
    """The design model: safety, refinement of the atomic queue, liveness; and
    the variants that must be refuted."""
    base = """SPECIFICATION Spec
CONSTANTS Cap = %d
 Sizes = {%s}
 NMsgs = %d
 NotifyInside = %s
 SignalAlways = %s
 Pipe = %d
 Retry = %s
INVARIANTS Ready NoStale Fifo Bounded Justified NoEmptyRefusal NoLostWakeup
%s
CHECK_DEADLOCK FALSE
"""
    props = "PROPERTIES Refines WokenEventually PushReturns Drained"
    big = ctx.q((4, "0,1,3", 3), (6, "0,1,3,5", 6))
    ctx.model_check("mbox/DynmboxDesign", base % (*big, "TRUE", "TRUE", 100, "TRUE", props))
    big = ctx.q((4, "0,1", 4), (6, "0,1,3", 6))
    ctx.model_check("mbox/DynmboxDesign", base % (*big, "TRUE", "TRUE", 2, "TRUE", props))
    ctx.refute("mbox/DynmboxDesign", base % (4, "0,1,3", 3, "FALSE", "TRUE", 100, "TRUE", ""), "byte written after unlocking")
    ctx.refute("mbox/DynmboxDesign", base % (4, "0,1,3", 3, "TRUE", "FALSE", 100, "TRUE", ""), "condition signalled only when empty")
    ctx.refute("mbox/DynmboxDesign", base % (4, "0", 4, "TRUE", "TRUE", 2, "FALSE", ""), "notifications that do not fit are dropped")


def wait_design(ctx):
    """Absolute deadlines beside a system clock that may be set."""
    base = """SPECIFICATION Spec
CONSTANTS T = %d
 Horizon = %d
 Steps <- StepSet
 Reads = "%s"
 Waits = "%s"
 Restart = %s
INVARIANTS NotEarly NotLate
CHECK_DEADLOCK FALSE
"""
    ctx.model_check("mbox/TimedWaitMC", base % (*ctx.q((3, 8), (6, 16)), "mono", "mono", "FALSE"))
    for r, w, x, what in (("wall", "wall", "FALSE", "waits on the system clock"), ("wall", "mono", "FALSE", "deadline of another clock"),
                          ("mono", "mono", "TRUE", "every wake-up restarts the timeout")):
        ctx.refute("mbox/TimedWaitMC", base % (3, 8, r, w, x), what)


def fix_design(ctx):
    base = """SPECIFICATION Spec
CONSTANTS Producers = {%s}
 Slots = 2
 PerPage = 2
 NMsgs = %d
 Timeout = 2
 Horizon = %d
 MaxIntr = %d
 RetryPush = %s
 RestartTimer = %s
INVARIANTS Once Fifo Failed Contract InTime EmptyTakes Readiness
CHECK_DEADLOCK FALSE
"""
    ctx.model_check("mbox/MboxDesign", base % (("p1, p2", *ctx.q((4, 2, 1), (5, 4, 2)), "TRUE", "FALSE")), timeout=ctx.q(300, 3000))
    ctx.refute("mbox/MboxDesign", base % ("p1, p2", 5, 3, 1, "FALSE", "FALSE"), "blocking push gives up when another took the page")
    ctx.refute("mbox/MboxDesign", base % ("p1, p2", 5, 3, 1, "TRUE", "TRUE"), "interrupted poll restarts its timeout")


def _dyn(ctx, obs, flow):
    dyn_design(ctx)
    rng = random.Random(ctx.seed * 31 + 7)
    scs = dyn_scs(ctx, rng, None)
    if not flow:     # a clock that fails: the push has to report it and leave no trace
        for a, b in (("b40000/100 b40000/50 p5", "z50 k z80 d"), ("p10 b20/5 b30/7", "k k k"), ("b40000/9 b40000/9 b40000/9", "c c c")):
            scs.append(Sc("dyn", [a, b], MAXD, budget=3, eintr=2, early=1, runs=ctx.q(2000, 20000)))
    drive(ctx, "dyn", scs, ctx.q(1.5, 30), obs, flow)


def d01(ctx):
    _dyn(ctx, False, False)


def d02(ctx):
    _dyn(ctx, True, False)


def d03(ctx):
    sizes(ctx, "dyn")
    wait_design(ctx)
    _dyn(ctx, False, True)


# ---------------------------------------------------------------------- mbox
def fix_scs(ctx, rng):
    S = []
    runs = ctx.q(6000, 20000)

    def add(threads, **kw):
        kw.setdefault("runs", runs)
        S.append(Sc("fix", threads, kw.pop("maxsz", 16), **kw))
    for sz in (1, 16, 1000, 2047, 2048, 2049, 4095):
        p = "p%d" % sz
        add([p + " " + p, p, "k k k"], maxsz=sz, budget=3, eintr=1)
        add([p + " " + p, p + " " + p, "c c", "c c"], maxsz=sz, budget=2, eintr=1)
    for sz in (7, 1500, 4095):
        p, b, bt = "p%d" % sz, "b%d/0" % sz, "b%d/100" % sz
        add([" ".join([p] * 6), "k k d"], maxsz=sz, budget=2)
        add([" ".join([b] * 3), " ".join([b] * 3), "c c c c c c"], maxsz=sz, budget=2)
        add([b + " " + b, b + " " + b, b, "k k"], maxsz=sz, budget=2, eintr=1)
        add([bt + " " + bt, bt + " " + bt, "z30 k z60 k z60 k"], maxsz=sz, budget=2, eintr=1)
        add([bt + " " + bt + " " + bt], maxsz=sz, budget=4, eintr=1)
        add([bt + " " + p, bt + " " + b, "z150 d"], maxsz=sz, budget=2, eintr=1, early=1)
        add([p + " " + b + " i0 i6", "i2 i3 c c d"], maxsz=sz, budget=2)
        add([p + " i1 i5 i7 i8", "k d"], maxsz=sz, budget=2)
    for tmo in (1, 2, 999, 1000, 60000, 2147483647, 2147483, 2147484):
        add(["p4095 p4095 b4095/%d b4095/1" % tmo], maxsz=4095, budget=2, eintr=1)
    # hundreds of interruptions in a row; interruptions just after the deadline
    for sz in (4, 2048, 4095):
        p, b, bt = "p%d" % sz, "b%d/0" % sz, "b%d/100" % sz
        add([b + " " + b, b, "k k k"], maxsz=sz, budget=1, eintr=4)
        add([bt + " " + bt + " " + p, "z30 k z90 k k"], maxsz=sz, budget=1, eintr=4)
        add([bt + " " + bt + " " + bt], maxsz=sz, budget=2, eintr=4, runs=ctx.q(200, 4000))
        add([" ".join([bt] * 5), "z350 k"], maxsz=sz, budget=3, eintr=8)
        add([" ".join(["b%d/3" % sz] * 4), "z5 k k"], maxsz=sz, budget=2, eintr=9)
    for st in (3600000, -3600000, 70, -70):     # the wall clock is set meanwhile
        add(["b4095/100 b4095/100", "z50 s%d z80 k" % st], maxsz=4095, budget=2, eintr=1)
        add(["b4095/0 b4095/90 b4095/0", "z30 s%d z30 k s%d z99 k" % (st, -st)], maxsz=4095, budget=2)
    for i in range(ctx.q(20, 120)):
        sz = rng.choice([1, 2, 3, 8, 100, 511, 512, 1024, 1365, 1366, 2047, 2048, 3000, 4000, 4094, 4095])
        np, nc = rng.choice([(1, 1), (2, 1), (2, 2), (3, 1)])
        threads = []
        for _ in range(np):
            threads.append(" ".join(rng.choice(["p%d" % sz, "p%d" % sz, "b%d/0" % sz, "b%d/%d" % (sz, rng.choice([3, 40]))])
                                    for _ in range(rng.randrange(3, 9))))
        for _ in range(nc):
            threads.append(" ".join(rng.choice(["k", "c", "z2", "k", "z30"]) for _ in range(rng.randrange(4, 12))))
        add(threads, maxsz=sz, rnd=1, budget=30, permille=rng.choice([20, 100, 300]), eintr=1, early=i % 4 == 3,
            seed=ctx.seed * 1000 + i, runs=ctx.q(60, 200), pipesz=rng.choice([4096, 4096, 8192, 16384]))
    add(["p4095 " * 18, "k " * 5 + "d"], maxsz=4095, budget=1, pipesz=0, runs=200)
    add(["p1 " * 300, "k " * 100 + "d"], maxsz=1, rnd=1, budget=10, permille=5, pipesz=0, runs=ctx.q(5, 40))
    return S


def sizes(ctx, kind):
    """Creation: every size class, judged by Creation.tla."""
    exe = build(ctx)
    if kind == "fix":
        szs = list(range(0, 4200)) + [65535, 65536, 1 << 31, (1 << 32) + 16, (1 << 64) - 1]
    else:
        szs = (list(range(0, 70)) + list(range(4090, 4100)) + list(range(65400, 65700)) +
               [1 << 17, 1 << 31, (1 << 32) + 16, (1 << 64) - 1, (1 << 64) - 4])
    rc, out, err = ctx.run([exe, "sizes"], input="".join("%s %d\n" % (kind, s) for s in szs), what="mailbox creation")
    recs = out.splitlines()
    bad = ctx.validate("mbox/Creation", "", recs)
    if bad:
        raise Violation("creation: %s" % json.dumps(bad[0]["rec"]), {"bad": bad[:10]})


def m01(ctx):
    fix_design(ctx)
    rng = random.Random(ctx.seed * 31 + 8)
    scs = fix_scs(ctx, rng)
    for sz in (16, 4095):
        bt = "b%d/50" % sz
        scs.append(Sc("fix", [bt + " " + bt + " " + bt, "z30 k k z9 d"], sz, budget=3, eintr=3, early=1, runs=ctx.q(2000, 20000)))
        scs.append(Sc("fix", [bt + " " + bt, bt + " " + bt, "c c c"], sz, budget=2, eintr=3, runs=ctx.q(2000, 20000)))
    drive(ctx, "fix", scs, ctx.q(1.5, 30), False, False)


def m02(ctx):
    fix_design(ctx)
    sizes(ctx, "fix")
    wait_design(ctx)
    rng = random.Random(ctx.seed * 31 + 9)
    drive(ctx, "fix", fix_scs(ctx, rng), ctx.q(1.5, 30), True, True)
