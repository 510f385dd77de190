"""Shared machinery of the checks: building the code under test from /repo's
working tree, running harness programs, running TLC, judging, evidence."""
import concurrent.futures
import glob
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
# tools/mutate.py only: models of the design do not depend on the code, leave them out
SKIP_DESIGN = os.environ.get("VF_SKIP_DESIGN") == "1"
EVID = os.environ.get("VF_EVID", os.path.join(VERIF, "evidence"))
SPECS = os.path.join(VERIF, "specs")
HARN = os.path.join(VERIF, "harness")
TLAJARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Violation(Exception):
    """The code under test broke the property (evidence in .data)."""

    def __init__(self, what, data=None):
        super().__init__(what)
        self.what = what
        self.data = data if data is not None else {}


class CheckError(Exception):
    """The check itself could not do its work (not a verdict)."""


class TlcResult:
    def __init__(self, rc, out, secs):
        self.rc, self.out, self.secs = rc, out, secs
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0
        m = re.findall(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m[-1]) if m else 0

    @property
    def ok(self):
        return self.rc == 0

    def printed(self, tag):
        """JSON payloads printed by PrintT(<tag> \\o ToJson(..)) lines."""
        res = []
        pre = '"' + tag
        for line in self.out.splitlines():
            if line.startswith(pre):
                s = json.loads(line)  # TLC prints a TLA+ string literal
                res.append(json.loads(s[len(tag):]))
        return res


class Ctx:
    def __init__(self, prop, tier=None, seed=None):
        self.prop = prop
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        s = seed if seed is not None else os.environ.get("VERIF_SEED", "1")
        try:
            self.seed = int(s)
        except ValueError:
            self.seed = 1
        self.thorough = self.tier == "thorough"
        base = os.environ.get("VF_WORK", os.path.join(VERIF, ".work"))
        self.work = os.path.join(base, prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.evals = 0
        self.samples = []
        self.extra = {}
        self.notes = []
        self.assumptions = []
        self._libs = {}
        self._n = 0
        self._lock = threading.Lock()
        self._v = 0

    def q(self, quick, thorough):
        return thorough if self.thorough else quick

    def log(self, *a):
        print("[%s %.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s if len(str(s)) < 1500 else str(s)[:1500])

    # ------------------------------------------------------------ building
    BASEFLAGS = ["-D_FILE_OFFSET_BITS=64", "-w", "-g", "-fno-omit-frame-pointer"]

    def _cc(self, jobs):
        def one(cmd):
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise CheckError("build failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            list(ex.map(one, jobs))

    def lib(self, name="std", cflags=("-O1",), cc="gcc", cxx="g++", with_cpp=False, skip=()):
        """Build all of /repo/src (current working tree; skip: base names left out) into an archive."""
        key = (name, tuple(cflags), cc, with_cpp)
        if key in self._libs:
            return self._libs[key]
        d = os.path.join(self.work, "lib-" + name + ("-cpp" if with_cpp else ""))
        os.makedirs(d, exist_ok=True)
        jobs, objs = [], []
        for src in sorted(glob.glob(os.path.join(REPO, "src", "*.c"))):
            if os.path.basename(src) in skip:
                continue
            o = os.path.join(d, os.path.basename(src) + ".o")
            objs.append(o)
            jobs.append([cc, "-std=gnu11", *self.BASEFLAGS, *cflags, "-ffunction-sections",
                         "-I" + os.path.join(HARN, "stub"), "-I" + os.path.join(REPO, "include"),
                         "-c", src, "-o", o])
        if with_cpp:
            for src in sorted(glob.glob(os.path.join(REPO, "src", "*.cpp"))):
                o = os.path.join(d, os.path.basename(src) + ".o")
                objs.append(o)
                jobs.append([cxx, "-std=c++11", *self.BASEFLAGS, *cflags,
                             "-I" + os.path.join(HARN, "stub"), "-I" + os.path.join(REPO, "include"),
                             "-c", src, "-o", o])
        self._cc(jobs)
        a = os.path.join(d, "libfutils.a")
        if os.path.exists(a):
            os.unlink(a)
        subprocess.run(["ar", "rcs", a, *objs], check=True)
        self._libs[key] = a
        return a

    def exe(self, name, sources, lib=None, cflags=("-O1",), ldflags=(), wraps=(), cc="gcc", cxx="g++",
            incs=()):
        """Link harness sources (relative to /verif/harness) with the library."""
        d = os.path.join(self.work, "obj-" + name)
        os.makedirs(d, exist_ok=True)
        jobs, objs, cpp = [], [], False
        for s in sources:
            p = s if os.path.isabs(s) else os.path.join(HARN, s)
            o = os.path.join(d, os.path.basename(p) + ".o")
            objs.append(o)
            iscpp = p.endswith(".cpp")
            cpp |= iscpp
            jobs.append([cxx if iscpp else cc, "-std=c++11" if iscpp else "-std=gnu11",
                         *self.BASEFLAGS, *cflags, *["-I" + i for i in incs], "-I" + HARN,
                         "-I" + os.path.join(HARN, "stub"),
                         "-I" + os.path.join(REPO, "include"), "-c", p, "-o", o])
        self._cc(jobs)
        out = os.path.join(self.work, name)
        cmd = [cxx if cpp else cc, "-o", out, *objs]
        if lib:
            cmd += [lib]
        cmd += ["-Wl,--wrap=" + w for w in wraps]
        cmd += ["-Wl,--gc-sections", *ldflags, "-lpthread", "-lm", "-ldl"]
        self._cc([cmd])
        return out

    # ------------------------------------------------------------- running
    memory = 3 << 30         # what a harness may hold

    def run(self, cmd, timeout=120, input=None, env=None, crash_is_violation=True, cwd=None,
            ok_codes=(0,), what="harness"):
        """Run a harness.  A crash, abnormal exit or hang of the harness on
        inputs within the contract counts against the code under test."""
        if not self.thorough:
            timeout = min(timeout, 150)      # ordinary runs take seconds: a hang has to be told within the time of a check
        e = dict(os.environ)
        e["LC_ALL"] = "C"
        if env:
            e.update(env)
        p = subprocess.Popen([str(c) for c in cmd], stdin=subprocess.PIPE if input is not None else subprocess.DEVNULL,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=cwd or self.work,
                             start_new_session=True,
                             preexec_fn=None if self.thorough else lambda: resource.setrlimit(resource.RLIMIT_CPU, (100, 110)))
        over = threading.Event()
        threading.Thread(target=self._memory_guard, args=(p, over), daemon=True).start()
        try:
            out, err = p.communicate(input.encode() if isinstance(input, str) else input, timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            out, err = p.communicate()
            rc = "timeout"
        if over.is_set():
            rc = "memory"
        out = out.decode("utf-8", "replace")
        err = err.decode("utf-8", "replace")
        if rc not in ok_codes and crash_is_violation:
            if "Assertion" in err and "/harness/" in err.split("Assertion")[0][-300:]:
                raise CheckError("%s: harness assertion: %s" % (what, err[-2000:]))
            if rc == 77:     # harness says: environment problem, no verdict
                raise CheckError("%s: environment problem: %s" % (what, err[-2000:]))
            tail = (out[-3000:] if len(out) > 3000 else out)
            raise Violation("%s ended abnormally (%s): %s" % (what, rc, (err.strip() or tail.strip())[-800:]),
                            {"cmd": [str(c) for c in cmd], "rc": rc, "stdout_tail": tail, "stderr_tail": err[-3000:]})
        return rc, out, err

    def _memory_guard(self, p, over):
        """End a harness whose code under test takes memory without end, before the system ends something else."""
        top = 0
        while p.poll() is None:
            try:
                with open("/proc/%d/statm" % p.pid) as f:
                    top = max(top, int(f.read().split()[1]) * 4096)
            except (OSError, IndexError, ValueError):
                break
            if top > self.memory:
                over.set()
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                break
            time.sleep(.1)
        if os.environ.get("VF_RSS"):
            with open(os.environ["VF_RSS"], "a") as f:
                f.write("%d %s %s\n" % (top >> 20, self.prop, p.args[0]))

    def drive(self, exe, lines, nproc=8, timeout=600, what="driver", args=(), cwds=False, key="id", env=None):
        """Feed one input line per case ("<i> ..." is prepended) to parallel
        driver processes and return the JSON record printed for each."""
        parts = [list(range(len(lines)))[k::nproc] for k in range(nproc)]
        parts = [p for p in parts if p]

        def one(k):
            inp = "".join("%d %s\n" % (i, lines[i]) for i in parts[k])
            a = list(args)
            cwd = None
            if cwds:
                cwd = os.path.join(self.work, "scratch-%d" % k)
                os.makedirs(cwd, exist_ok=True)
            return self.run([exe, *a], input=inp, timeout=timeout, what=what, cwd=cwd, env=env)[1]
        with concurrent.futures.ThreadPoolExecutor(len(parts) or 1) as ex:
            outs = list(ex.map(one, range(len(parts))))
        recs = [None] * len(lines)
        for out in outs:
            for l in out.splitlines():
                try:
                    r = json.loads(l)
                except ValueError:
                    raise CheckError("%s printed %r" % (what, l[:300]))
                recs[int(r.pop(key))] = r
        if any(r is None for r in recs):
            raise CheckError("%s lost records" % what)
        self.evals += len(recs)
        return recs

    def generate(self, module, cfg, tag="GEN", **kw):
        """Behaviours/vectors enumerated by TLC (PrintT(tag \\o ToJson(..)))."""
        r = self.model_check(module, cfg, **{"workers": 1, "needed": True, **kw})
        return r.printed(tag)

    def judge(self, module, cfg, recs, what, describe=None, shards=None, **kw):
        """TLC judges independent records; the first rejected one is a violation."""
        n = shards or (8 if len(recs) > 2000 else 4 if len(recs) > 200 else 1)
        bad = self.validate(module, cfg, recs, shards=n, **kw)
        if bad:
            b = bad[0]["rec"] if "rec" in bad[0] else bad[0]
            d = describe(b) if describe else json.dumps(b)[:700]
            raise Violation("%s: %s" % (what, d), {"rejected": len(bad), "first": b})

    def tlc(self, module, cfg, env=None, workers=1, timeout=800, heap="6g", fast=True, extra=(),
            expect_ok=False, what=None, jopts=()):
        """Run TLC on specs/<module>.tla with config text `cfg`."""
        with self._lock:
            self._n += 1
            num = self._n
        tla = os.path.join(SPECS, module + ".tla")
        if not os.path.exists(tla):
            raise CheckError("no such spec " + tla)
        mdir = os.path.dirname(tla)
        name = os.path.basename(module)
        d = os.path.join(self.work, "tlc%d-%s" % (num, name))
        os.makedirs(d)
        cfgp = os.path.join(d, name + ".cfg")
        if cfg.endswith(".cfg"):
            shutil.copy(os.path.join(mdir, cfg), cfgp)
        else:
            with open(cfgp, "w") as f:
                f.write(cfg)
        cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m"]
        if fast:
            cmd.append("-XX:TieredStopAtLevel=1")
        cmd += list(jopts)
        cmd += ["-Djava.io.tmpdir=" + d, "-DTLA-Library=" + os.path.join(SPECS, "lib"), "-cp", TLAJARS, "tlc2.TLC",
                "-config", cfgp, "-workers", str(workers), "-metadir", os.path.join(d, "meta"),
                "-noGenerateSpecTE", "-nowarning", *extra, tla]
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        if env:
            e.update({k: str(v) for k, v in env.items()})
        t = time.time()
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e,
                               cwd=d, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on %s" % module)
        res = TlcResult(r.returncode, r.stdout, time.time() - t)
        with open(os.path.join(d, "out.txt"), "w") as f:
            f.write(r.stdout)
        shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
        if expect_ok and not res.ok:
            raise CheckError("TLC reports a problem in the model %s (%s), rc=%d:\n%s"
                             % (module, what or "", res.rc, r.stdout[-3500:]))
        self.states += res.distinct
        self.transitions += res.generated
        return res

    def model_check(self, module, cfg, **kw):
        """Check the specification itself; a failure is a failure of the model."""
        kw.setdefault("workers", 8)
        if SKIP_DESIGN and not kw.pop("needed", False):
            return None
        kw.pop("needed", None)
        r = self.tlc(module, cfg, expect_ok=True, **kw)
        self.log("TLC %s: %d distinct states, %d generated, depth %d (%.1fs)" %
                 (module, r.distinct, r.generated, r.depth, r.secs))
        return r

    def refute(self, module, cfg, what, **kw):
        """A deliberately wrong variant of the model has to be rejected by
        TLC (otherwise the properties checked on it say nothing)."""
        kw.setdefault("workers", 4)
        if SKIP_DESIGN:
            return None
        r = self.tlc(module, cfg, **kw)
        if r.rc not in (12, 13):
            raise CheckError("TLC did not refute the variant '%s' of %s (rc=%d): %s" % (what, module, r.rc, r.out[-1500:]))
        self.extra.setdefault("refuted_variants", []).append("%s: %s" % (module, what))
        return r

    def parallel(self, *fs):
        """Run independent pieces of work side by side; first failure wins."""
        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            for f in [ex.submit(f) for f in fs]:
                f.result()

    def refutes(self, module, variants, cfg, **kw):
        """refute() of several variants; cfg(v) is the configuration of v."""
        kw.setdefault("workers", 2)
        self.parallel(*[(lambda v=v: self.refute(module, cfg(v), str(v), **kw)) for v in variants])

    def validate(self, module, cfg, records, name="trace", shards=1, **kw):
        """Have TLC judge recorded behaviours.  `module` reads IOEnv.TRACE, a
        ndjson file, and must print "BAD" \\o ToJson(rec) for each rejected
        record/history and "DONE" \\o ToJson([n |-> number judged])."""
        shards = max(1, min(shards, len(records) or 1))
        parts = [records[i::shards] for i in range(shards)]
        self._v += 1
        vnum = self._v

        def one(i):
            path = os.path.join(self.work, "%s-%d-%d.ndjson" % (name, vnum, i))
            with open(path, "w") as f:
                for r in parts[i]:
                    f.write(r if isinstance(r, str) else json.dumps(r))
                    f.write("\n")
            res = self.tlc(module, cfg, env=dict(kw.get("env") or {}, TRACE=path),
                           **{k: v for k, v in kw.items() if k != "env"})
            if not res.ok:
                raise CheckError("TLC failed while judging %s (rc=%d): %s" % (module, res.rc, res.out[-3000:]))
            done = res.printed("DONE")
            if not done or done[-1].get("n") != len(parts[i]):
                raise CheckError("TLC judged %s of %d records of %s: %s" %
                                 (done, len(parts[i]), module, res.out[-2000:]))
            os.unlink(path)
            bad = res.printed("BAD")
            for b in bad:
                if set(b) == {"i"}:          # rejected by number (RecKit)
                    r = parts[i][b["i"] - 1]
                    b["rec"] = json.loads(r) if isinstance(r, str) else r
            return bad
        with concurrent.futures.ThreadPoolExecutor(shards) as ex:
            bad = [b for r in list(ex.map(one, range(shards))) for b in r]
        self.traces += len(records)
        return bad


def write_replay(ctx, v):
    d = EVID
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s.replay.json" % ctx.prop)
    with open(path, "w") as f:
        json.dump({"property": ctx.prop, "seed": ctx.seed, "tier": ctx.tier, "what": v.what, "data": v.data,
                   "rerun": "VERIF_SEED=%d VERIF_TIER=%s bin/check %s" % (ctx.seed, ctx.tier, ctx.prop)},
                  f, indent=1, default=str)
    return path


def write_evidence(ctx, level, violations):
    cov = {"states": ctx.states, "transitions": ctx.transitions, "traces_validated_against_impl": ctx.traces,
           "samples": ctx.samples or ["(none)"]}
    if ctx.evals:
        cov["evaluations"] = ctx.evals
    cov.update(ctx.extra)
    ev = {"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": level, "coverage": cov,
          "assumptions": ctx.assumptions, "wall_s": round(time.time() - ctx.t0, 2), "violations": violations}
    d = EVID
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, ".%s.tmp" % ctx.prop)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(d, "%s.json" % ctx.prop))


def main(prop, run, level="model_checking"):
    """Run a check; a violation is reported only if a second run repeats it."""
    first = None
    for attempt in (1, 2, 3):
        ctx = Ctx(prop)
        try:
            run(ctx)
        except Violation as v:
            print("[%s] attempt %d: %s" % (prop, attempt, v.what), flush=True)
            if first is not None:
                path = write_replay(ctx, v)
                write_evidence(ctx, level, 1)
                print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
                return 1
            first = v
            continue
        except CheckError as e:
            print("CHECK ERROR %s: %s" % (prop, e), flush=True)
            return 3
        if first is not None and attempt == 2:
            # did not repeat: one more run decides
            ctx.notes.append("first attempt rejected (%s), second did not" % first.what)
            print("[%s] rejection did not repeat; running once more" % prop, flush=True)
            continue
        write_evidence(ctx, level, 0)
        print("OK property=%s tier=%s states=%d traces=%d evaluations=%d wall=%.1fs" %
              (prop, ctx.tier, ctx.states, ctx.traces, ctx.evals, time.time() - ctx.t0), flush=True)
        return 0
    return 0
