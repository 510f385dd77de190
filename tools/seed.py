#!/usr/bin/env python3
"""Make and test planted bugs (seeded/<id>/).

  seed.py make FILE.py   FILE.py defines SEEDS = [dict(id=, prop=, needs=, breaks=, edits=[(file, old, new)],
                         srcs=[...], demo=C text, cxx=bool, wraps=[...], flags=[...])]
  seed.py demo ID...     run the demonstrations on the unchanged tree and with the patch
  seed.py catch ID...    run the check of the bug's property on a patched scratch copy (VF_REPO)
"""
import json, os, shutil, subprocess, sys, tempfile, importlib.util
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
STUB = os.path.join(V, "harness/stub/ulog.h")


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout, errors="replace")
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as x:
        return 124, "timeout"


def scratch():
    d = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    r = os.path.join(d, "repo")
    sh(["git", "clone", "-q", REPO, r])
    return d, r


def make(path):
    spec = importlib.util.spec_from_file_location("seeds", path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    ids = []
    for s in m.SEEDS:
        d, r = scratch()
        try:
            for f, old, new in s["edits"]:
                p = os.path.join(r, f)
                t = open(p).read()
                assert t.count(old) == 1, (s["id"], f, t.count(old), old)
                open(p, "w").write(t.replace(old, new))
            rc, diff = sh(["git", "diff"], cwd=r)
            out = os.path.join(V, "seeded", s["id"])
            shutil.rmtree(out, ignore_errors=True)
            os.makedirs(out)
            open(os.path.join(out, "patch.diff"), "w").write(diff)
            json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                      open(os.path.join(out, "meta.json"), "w"), indent=1)
            cxx = s.get("cxx")
            src = "demo.cpp" if cxx else "demo.c"
            open(os.path.join(out, src), "w").write(s["demo"].lstrip("\n"))
            shutil.copy(STUB, os.path.join(out, "ulog.h"))
            wr = " ".join("-Wl,--wrap=" + w for w in s.get("wraps", []))
            fl = " ".join(s.get("flags", []))
            comp = ""
            objs = []
            for i, c in enumerate(s["srcs"]):
                if c.endswith(".cpp"):
                    comp += 'g++ -std=c++11 $F -c %s -o "$T/o%d.o" || exit 1\n' % (c, i)
                else:
                    comp += 'gcc -std=gnu11 $F -c %s -o "$T/o%d.o" || exit 1\n' % (c, i)
                objs.append('"$T/o%d.o"' % i)
            cc = "g++ -std=c++11" if cxx else "gcc -std=gnu11"
            open(os.path.join(out, "demo.sh"), "w").write("""#!/bin/bash
# exit 0: the property holds for the demonstrated case; nonzero: it does not
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo-XXXXXX) || exit 1
trap 'rm -rf "$T"' EXIT
F="-D_FILE_OFFSET_BITS=64 -D_GNU_SOURCE -w -g -I$D -Iinclude -Isrc %s"
%s%s $F "$D/%s" %s %s -o "$T/demo" -lpthread -lm || exit 1
cd "$T" || exit 1
timeout -k 1 %d "$T/demo" "$T"
rc=$?
[ $rc -eq 0 ] || echo "demo: exit $rc"
exit $rc
""" % (fl, comp, cc, src, " ".join(objs), wr, s.get("timeout", 60)))
            os.chmod(os.path.join(out, "demo.sh"), 0o755)
            ids.append(s["id"])
        finally:
            shutil.rmtree(d)
    demo(ids)


def demo(ids):
    ok = True
    for i in ids:
        d, r = scratch()
        try:
            sd = os.path.join(V, "seeded", i)
            dd = os.path.join(d, "demo")
            shutil.copytree(sd, dd)
            rc0, o0 = sh(["bash", os.path.join(dd, "demo.sh")], cwd=r, timeout=300)
            rca, oa = sh(["git", "apply", os.path.join(sd, "patch.diff")], cwd=r)
            rc1, o1 = sh(["bash", os.path.join(dd, "demo.sh")], cwd=r, timeout=300)
            good = rc0 == 0 and rca == 0 and rc1 != 0 and "error:" not in o1
            ok &= good
            print("%s: clean %s, patched %s %s" % (i, rc0, rc1, "" if good else "  <<<<<< BAD\n" + o0[-800:] + oa + o1[-800:]), flush=True)
        finally:
            shutil.rmtree(d)
    return ok


def catch(ids):
    for i in ids:
        d, r = scratch()
        try:
            sd = os.path.join(V, "seeded", i)
            meta = json.load(open(os.path.join(sd, "meta.json")))
            rca, oa = sh(["git", "apply", os.path.join(sd, "patch.diff")], cwd=r)
            if rca:
                print(i, "patch does not apply", oa)
                continue
            for p in [meta["property"]] + ([] if "--only" not in sys.argv else []):
                rc, o = sh([os.path.join(V, "bin/check"), p], env={"VF_REPO": r, "VF_WORK": os.path.join(d, "w"), "VF_EVID": d})
                w = [l for l in o.splitlines() if "attempt" in l or "VIOLATION" in l or "ERROR" in l]
                print("%s: %s rc=%d %s" % (i, p, rc, "CAUGHT" if rc == 1 else "MISSED <<<<"), (w or [""])[0][:260], flush=True)
                if rc not in (0, 1):
                    print(o[-1500:])
                f = os.path.join(V, "tools", "seed_results.json")
                res = json.load(open(f)) if os.path.exists(f) else {}
                res[i] = {1: "caught", 0: "missed"}.get(rc, "no answer")
                json.dump(res, open(f, "w"), indent=0, sort_keys=True)
        finally:
            shutil.rmtree(d)


if __name__ == "__main__":
    a = [x for x in sys.argv[2:] if not x.startswith("--")]
    if sys.argv[1] != "make" and not a:
        a = sorted(os.listdir(os.path.join(V, "seeded")))
    {"make": lambda: make(a[0]), "demo": lambda: demo(a), "catch": lambda: catch(a)}[sys.argv[1]]()
