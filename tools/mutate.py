#!/usr/bin/env python3
"""Line-level mutants of the code, to find behaviour the checks do not see.

  mutate.py FILE [-n COUNT] [-j WORKERS] [-s SEED] [-o OUT] CHECK...

FILE is relative to /repo; each mutant is built in a scratch copy and the
checks are run on it (design models left out) until one reports a violation.
Survivors go to OUT as diffs, for reading: an equivalent mutant is no loss."""
import argparse, concurrent.futures, os, random, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"


def mutants(text):
    lines = text.split("\n")
    skip = 0
    comment = False
    depth = 0
    out = []
    for i, l in enumerate(lines):
        s = l.strip()
        if comment:
            comment = "*/" not in s
            continue
        if s.startswith("/*"):
            comment = "*/" not in s
            continue
        if s.startswith("#"):
            if re.match(r"#\s*if", s):
                depth += 1
                if skip == 0 and re.match(r"#\s*(ifdef|if defined)\s*\(?_WIN32", s):
                    skip = depth
            elif re.match(r"#\s*else", s) and skip == depth:
                skip = 0
            elif re.match(r"#\s*endif", s):
                if skip == depth:
                    skip = 0
                depth -= 1
            if not re.match(r"#\s*define\s+\w+(\(.*?\))?\s+\S", s):
                continue
        if skip or not s or s.startswith("*") or s.startswith("//"):
            continue
        if re.match(r"(static|struct|enum|typedef|extern)\b", s) and not s.endswith(";"):
            continue
        if "ULOG" in s or "printf(" in s and "snprintf" not in s:
            continue
        code = re.sub(r'"(\\.|[^"])*"', lambda m: '"' + "_" * (len(m.group()) - 2) + '"', l)
        code = re.sub(r"/\*.*?\*/", lambda m: "_" * len(m.group()), code)

        def rep(a, b, new, what):
            out.append((i, l[:a] + new + l[b:], what))
        for m in re.finditer(r"(?<![<>=!+\-*/&|^-])(<=|>=|==|!=|<|>)(?![<>=])", code):
            if s.startswith("#") or m.group() == ">" and code[m.start() - 1] == "-":
                continue
            for n in {"<": ["<="], "<=": ["<"], ">": [">="], ">=": [">"], "==": ["!="], "!=": ["=="]}[m.group()]:
                rep(m.start(), m.end(), n, "rel")
        for m in re.finditer(r"&&|\|\|", code):
            rep(m.start(), m.end(), "||" if m.group() == "&&" else "&&", "logic")
        for m in re.finditer(r" ([+\-*/%&|]|<<|>>) (?=[\w(])", code):
            o = m.group(1)
            n = {"+": "-", "-": "+", "*": "+", "/": "*", "%": "+", "&": "|", "|": "&", "<<": ">>", ">>": "<<"}[o]
            rep(m.start(1), m.end(1), n, "arith")
        for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", code):
            v = int(m.group())
            rep(m.start(), m.end(), str(v + 1), "const")
            if v > 0:
                rep(m.start(), m.end(), str(v - 1), "const")
        m = re.match(r"(\s*(?:\}\s*else\s+)?(?:if|while)\s*\()(.*)(\)\s*\{?)$", l)
        if m and m.group(2).count("(") == m.group(2).count(")"):
            out.append((i, m.group(1) + "!(" + m.group(2) + ")" + m.group(3), "negate"))
            if "if" in m.group(1):
                out.append((i, m.group(1) + "0 && (" + m.group(2) + ")" + m.group(3), "never"))
                out.append((i, m.group(1) + "1 || (" + m.group(2) + ")" + m.group(3), "always"))
        if s.endswith(";") and not re.match(r"(const |unsigned |struct |size_t |ssize_t |u?int\w* |char |bool |void |long |return|static |case |default|\}|time_t |double |enum )", s):
            if code.count("(") == code.count(")"):
                out.append((i, re.match(r"\s*", l).group() + ";", "drop"))
        m = re.match(r"(\s*[\w\->.\[\]*]+\s)([+\-|&]=)(\s.*)$", l)
        if m:
            out.append((i, m.group(1) + "=" + m.group(3), "assign"))
        m = re.match(r"(\s*)return (.*);$", l)
        if m and m.group(2) != "0":
            out.append((i, m.group(1) + "return 0;", "ret0"))
    return lines, out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("file")
    ap.add_argument("checks", nargs="+")
    ap.add_argument("-n", type=int, default=60)
    ap.add_argument("-j", type=int, default=3)
    ap.add_argument("-s", type=int, default=1)
    ap.add_argument("-o", default=None)
    a = ap.parse_args()
    out = a.o or "/tmp/mut-%s.txt" % os.path.basename(a.file)
    text = open(os.path.join(REPO, a.file)).read()
    lines, ms = mutants(text)
    random.Random(a.s).shuffle(ms)
    base = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    iscpp = a.file.endswith(("cpp", "hpp"))
    header = a.file.startswith("include")

    def obj(repo, name):
        src = os.path.join(repo, a.file)
        o = os.path.join(base, name)
        if header:
            src = V + "/harness/" + ("listdrv.c" if "list.h" in a.file else "timedrv.c")
        cmd = ["g++" if iscpp else "gcc", "-std=c++11" if iscpp else "-std=gnu11", "-w", "-O1", "-D_FILE_OFFSET_BITS=64", "-I" + V + "/harness/stub",
               "-I" + V + "/harness", "-I" + repo + "/include", "-c", "-o", o, "-x", "c++" if iscpp else "c", "-"]
        # same bytes when the code is the same: no file name, no line numbers but those of asserts
        r = subprocess.run(cmd, input="#line 1 \"x\"\n" + open(src).read(), text=True, capture_output=True, cwd=os.path.dirname(src))
        if r.returncode:
            return False
        return open(o, "rb").read()
    ref = None
    seen = set()
    todo = []
    r0 = os.path.join(base, "m")
    os.makedirs(r0)
    shutil.copytree(REPO + "/src", r0 + "/src")
    shutil.copytree(REPO + "/include", r0 + "/include")
    ref = obj(r0, "ref.o")
    for i, new, what in ms:
        if len(todo) >= a.n:
            break
        t = lines[:]
        t[i] = new
        open(os.path.join(r0, a.file), "w").write("\n".join(t))
        b = obj(r0, "x.o")
        if b is False or b == ref or b in seen:
            continue
        seen.add(b)
        todo.append((i, new, what))
    print("%s: %d mutants of %d" % (a.file, len(todo), len(ms)), flush=True)
    surv = []

    def one(k):
        i, new, what = todo[k]
        d = os.path.join(base, "w%d" % k)
        repo = d + "/repo"
        os.makedirs(repo)
        try:
            shutil.copytree(REPO + "/src", repo + "/src")
            shutil.copytree(REPO + "/include", repo + "/include")
            t = lines[:]
            t[i] = new
            open(os.path.join(repo, a.file), "w").write("\n".join(t))
            res = []
            for c in a.checks:
                e = dict(os.environ, VF_REPO=repo, VF_WORK=d + "/work", VF_EVID=d + "/ev", VF_SKIP_DESIGN="1")
                os.makedirs(d + "/ev", exist_ok=True)
                p = subprocess.Popen([V + "/bin/check", c], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
                try:
                    o, _ = p.communicate(timeout=700)
                    rc = p.returncode
                except subprocess.TimeoutExpired:
                    os.killpg(p.pid, 9)
                    subprocess.run(["pkill", "-9", "-f", d + "/"])
                    p.communicate()
                    o, rc = "", "timeout"
                res.append((c, rc))
                if rc == 1 and "VIOLATION" in o:
                    return k, c, res
                if rc not in (0, 1):
                    res.append(o[-300:])
            return k, None, res
        finally:
            shutil.rmtree(d, ignore_errors=True)
    killed = {}
    with concurrent.futures.ThreadPoolExecutor(a.j) as ex:
        for k, c, res in ex.map(one, range(len(todo))):
            i, new, what = todo[k]
            if c:
                killed[c] = killed.get(c, 0) + 1
            else:
                surv.append(k)
                with open(out, "a") as f:
                    f.write("%s:%d [%s] %s\n-%s\n+%s\n" % (a.file, i + 1, what, [r for r in res if not (isinstance(r, tuple) and r[1] == 0)], lines[i], new))
    print("%s: killed %s, survived %d -> %s" % (a.file, killed, len(surv), out), flush=True)
    shutil.rmtree(base, ignore_errors=True)


main()
