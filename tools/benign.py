#!/usr/bin/env python3
"""Behaviour-preserving rewrites of the library on which the checks have to stay quiet.

  benign.py diff            write benign/<id>.diff from tools/benign_edits.py (all edits must apply to /repo's HEAD)
  benign.py run [-j N] [ID[:CHECK,CHECK]...]   build, run the stable tests and the listed checks on each rewritten scratch copy
"""
import json, os, shutil, subprocess, sys, tempfile, importlib.util
from concurrent.futures import ThreadPoolExecutor
V = os.environ.get("BENIGN_V") or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
RES = os.environ.get("BENIGN_RES") or os.path.join(V, "tools", "benign_results.json")


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout, errors="replace")
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def load():
    p = os.environ.get("BENIGN_EDITS") or os.path.join(V, "tools", "benign_edits.py")
    spec = importlib.util.spec_from_file_location("benign_edits", p)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m.R


def one(r):
    id, checks, edits = r
    d = tempfile.mkdtemp(prefix="benign-", dir="/tmp")
    repo = os.path.join(d, "repo")
    out = {}
    try:
        sh(["git", "clone", "-q", REPO, repo])
        for f, old, new in edits:
            p = os.path.join(repo, f)
            t = open(p).read()
            if t.count(old) != 1:
                print("%s: edit of %s matches %d times" % (id, f, t.count(old)), repr(old[:120]), flush=True)
                return id, {"edit": "does not apply"}
            open(p, "w").write(t.replace(old, new))
        for c in checks:
            rc, o = sh([os.path.join(V, "bin/check"), c], env={"VF_REPO": repo, "VF_WORK": os.path.join(d, "w"), "VF_EVID": d})
            out[c] = {0: "quiet", 1: "ALARM"}.get(rc, "NO ANSWER")
            if rc:
                print("==== %s %s rc=%d\n%s" % (id, c, rc, o[-1800:]), flush=True)
        print(id, out, flush=True)
        return id, out
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    a = sys.argv[2:]
    j = 1
    if a and a[0] == "-j":
        j = int(a[1]); a = a[2:]
    R = load()
    if a:
        sel = dict((x.split(":") + [""])[:2] for x in a)
        R = [(i, sel[i].split(",") if sel[i] else c, e) for i, c, e in R if i in sel]
    res = json.load(open(RES)) if os.path.exists(RES) else {}
    with ThreadPoolExecutor(j) as ex:
        for id, out in ex.map(one, R):
            res.setdefault(id, {}).update(out)
            json.dump(res, open(RES, "w"), indent=0, sort_keys=True)
    bad = [(i, c, v) for i, o in res.items() for c, v in o.items() if v != "quiet"]
    print("not quiet:", bad)
    sys.exit(1 if bad else 0)
