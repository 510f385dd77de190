"""G01: the value macros of futils.h, against specs/macros."""
import itertools
import random

CFG = "CONSTANTS R = %d N = %d Variant = \"%s\" Op = \"%s\"\nSPECIFICATION Spec\nINVARIANTS Once Right\n"
BITS = [(8, 0), (8, 1), (16, 0), (16, 1), (32, 0), (32, 1), (64, 0), (64, 1)]
OPS3 = [0, 2, 3, 4, 5, 6, 7, 9]


def value(rng, t, wide):
    if t >= 8:
        return rng.choice([rng.randrange(-(1 << 22), 1 << 22), rng.randrange(-9, 9), rng.randrange(-400, 400)])
    b, u = BITS[t]
    lo, hi = (0, (1 << b) - 1) if u else (-(1 << (b - 1)), (1 << (b - 1)) - 1)
    c = rng.randrange(6)
    if c == 0:
        v = rng.choice([lo, hi, lo + 1, hi - 1, 0])
    elif c == 1:
        v = rng.randrange(-3, 4)
    elif c == 2:
        v = rng.choice([-1, 1]) * ((1 << rng.randrange(b)) + rng.randrange(-1, 2))
    elif c == 3:
        v = rng.choice([0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000])
    else:
        v = rng.randrange(lo, hi + 1)
    v = min(max(v, lo), hi)
    if not wide:      # beside a floating-point argument: in quarters, exact in a float
        v = min(max(v, -(1 << 20)), 1 << 20) * 4
    return v


def g01(ctx):
    for op in ("min", "max", "bound"):
        ctx.model_check("macros/MacroDesign", CFG % (4, 2, "ok", op))
    ctx.parallel(*[(lambda v=v, op=op: ctx.refute("macros/MacroDesign", CFG % (3, 1, v, op), v + " " + op, workers=2))
                   for v, op in (("twice", "min"), ("typea", "max"), ("twice", "bound"), ("lazy", "bound"), ("cross", "bound"))])
    rng = random.Random(ctx.seed * 307 + 5)
    es = [ctx.exe("macrodrv", ["macrodrv.c"], cflags=("-O1",)),
          ctx.exe("macrodrv_cpp", ["macrodrv_cpp.cpp"], cflags=("-O1", "-std=gnu++11")),
          ctx.exe("macrodrv_o3", ["macrodrv.c"], cflags=("-O3", "-fwrapv"), cc="clang")]
    uses = [(k, "%d%d" % p) for k in ("min", "max") for p in itertools.product(range(10), repeat=2)]
    uses += [("bound", "%d%d%d" % p) for p in itertools.product(OPS3, repeat=3)]
    uses += [(k, "666") for k in ("maxmin", "minmax", "pbound")] * 10
    for j, e in enumerate(es):
        lines = ["arr %d" % i for i in range(14)]
        for k, t in uses:
            fl = "8" in t or "9" in t
            for _ in range(ctx.q(8, 60)):
                v = [value(rng, int(c), not fl) for c in t]
                for i in range(1, len(v)):
                    if rng.randrange(6) == 0:      # equal or adjacent values
                        w = v[0] + rng.choice([0, 0, 1, -1]) * (4 if fl else 1)
                        x = int(t[i])
                        if x >= 8 or (0 if BITS[x][1] else -(1 << (BITS[x][0] - 1))) <= (w // 4 if fl else w) < (1 << (BITS[x][0] - 1 + BITS[x][1])):
                            if x >= 8 or not fl or w % 4 == 0:
                                v[i] = w
                if "bound" in k and rng.randrange(8):
                    if v[1] > v[2]:
                        if t[1] == t[2]:
                            v[1], v[2] = v[2], v[1]
                        else:
                            continue
                if fl:     # every value has to be the exact value of its type
                    v = [x if int(c) >= 8 else (x // 4 * 4 if not BITS[int(c)][1] or x >= 0 else 0) for x, c in zip(v, t)]
                lines.append("%s %s %s" % (k, t, " ".join(str(x) for x in v)))
        recs = ctx.drive(e, lines, what="macro driver")
        ctx.sample(recs[500])
        ctx.judge("macros/MacroTrace", "", recs, "macro use (%s)" % ("C", "C++", "C, clang")[j], shards=8)
        ctx.extra["uses_" + ("c", "cpp", "clang")[j]] = len(recs)


# ------------------------------------------------------- compile-time helpers
LITS = [("0", 0), ("1", 1), ("-1", -1), ("2", 2), ("256", 256), ("sizeof(char)", 1), ("sizeof(struct s)", 8), ("sizeof(struct s *)", 8),
        ("0x100000000LL", 1), ("(unsigned char)256", 0), ("E_NONE", 0), ("E_SOME", 7), ("'a'", 97), ("(int)0.5", 0), ("-2147483647", -2147483647)]
CTEXT = {"eq": "==", "ne": "!=", "lt": "<", "and": "&&", "or": "||", "sub": "-"}
PREC = {"if": 0, "or": 1, "and": 2, "eq": 3, "ne": 3, "lt": 4, "sub": 5, "not": 6, "lit": 6}


def cond(rng, depth):
    if depth == 0 or rng.randrange(4) == 0:
        t, v = rng.choice(LITS)
        return {"k": "lit", "v": v, "t": t}
    k = rng.choice(["not", "if", "if", "eq", "ne", "lt", "and", "or", "sub", "eq"])
    e = {"k": k, "a": cond(rng, depth - 1)}
    if k != "not":
        e["b"] = cond(rng, depth - 1)
    if k == "if":
        e["c"] = cond(rng, depth - 1)
    return e


def ctext(e):
    def sub(x, above):
        t = ctext(x)
        return "(" + t + ")" if PREC[x["k"]] <= above else t
    if e["k"] == "lit":
        return e["t"]
    if e["k"] == "not":
        return "!" + sub(e["a"], 6) if e["a"]["k"] != "lit" else "!" + ("(%s)" % e["a"]["t"])
    if e["k"] == "if":
        return "%s ? %s : %s" % (sub(e["a"], 0), sub(e["b"], 0), sub(e["c"], 0))
    return "%s %s %s" % (sub(e["a"], PREC[e["k"]]), CTEXT[e["k"]], sub(e["b"], PREC[e["k"]]))


def small(e):
    """The value stays within what a literal of TLA+ and an int hold, big literals are only tested for being zero."""
    if e["k"] == "lit":
        return e["t"] != "0x100000000LL"
    return all(small(e[x]) for x in "abc" if x in e) if e["k"] not in ("not", "and", "or") else \
        all(small(e[x]) or e[x]["k"] == "lit" for x in "ab" if x in e)


def fits(e):
    if e["k"] == "sub":
        return all(x["k"] == "lit" and "214" not in x["t"] and "sizeof" not in x["t"] for x in (e["a"], e["b"]))
    if e["k"] in ("lt", "eq", "ne", "if"):     # signed and unsigned operands are not mixed
        xs = [e[x] for x in "abc" if x in e and not (e["k"] == "if" and x == "a")]
        if any("sizeof" in str(x) for x in xs) and e["k"] != "if":
            return all(x["k"] == "lit" and x["v"] >= 0 for x in xs)
    return all(fits(e[x]) for x in "abc" if x in e)


HEAD = "#include <stddef.h>\n#include <futils/futils.h>\nstruct s { int a, b; };\nenum e { E_NONE, E_SOME = 7 };\n"
SPOTS = {"file": "%s\nint after;\n", "func": "int f(int x);\nint f(int x)\n{\n%s\nx++;\nreturn x;\n}\n",
         "loop": "int f(int x);\nint f(int x)\n{\nint i;\nfor (i = 0; i < 3; i++) {\n%s\nx += i;\n}\nreturn x;\n}\n",
         "two": "int f(void);\nint f(void)\n{\n%s\nreturn 1;\n}\nint g(void);\nint g(void)\n{\n%s\nreturn 2;\n}\n"}
COMPILERS = [("gcc", "gnu99", "c"), ("gcc", "gnu11", "c"), ("gcc", "gnu17", "c"), ("gcc", "gnu2x", "c"), ("clang", "gnu99", "c"),
             ("clang", "gnu11", "c"), ("clang", "gnu2x", "c"), ("g++", "gnu++11", "c++"), ("g++", "gnu++17", "c++"), ("g++", "gnu++20", "c++"),
             ("gcc", "c99", "c"), ("gcc", "c11", "c"), ("clang", "c99", "c"), ("g++", "c++11", "c++"), ("clang++", "c++17", "c++")]
# members of a structure, and the declarations of an object v of each type
MEMBERS = ["i", "u", "c", "d", "s", "q", "in.x", "in", "a", "a[1]", "f", "p->i"]
STRUCT = ("struct In { short x; };\nstruct S { int i; unsigned int u; char c; double d; char *s; long long q; struct In in; long a[3]; int (*f)(int);\n"
          "struct S *p; };\ntypedef struct S ST;\n")
DECLS = {"int": "int v", "unsigned": "unsigned int v", "char": "char v", "double": "double v", "string": "char *v", "long long": "long long v",
         "short": "short v", "In": "struct In v", "long3": "long v[3]", "long": "long v", "function": "int (*v)(int)", "long4": "long v[4]", "int2": "int *v"}
CPPHEAD = """#include <utility>
#include <vector>
#include <futils/futils.hpp>
struct Base { int n; };
class C : public Base {
public:
	C() {}
	explicit C(int v) { n = v; }
	int get() const { return n; }
	FUTILS_DISABLE_COPY(C)
};
class D : public C { public: D() {} };
template <class T> class Tpl { public: Tpl() {} T t; private: FUTILS_DISABLE_COPY(Tpl) };
"""
COPYUSES = [("default", "%s a;"), ("reference", "%s a; %s &r = a; (void)r;"), ("const reference", "%s a; const %s &r = a; (void)r;"),
            ("pointer", "%s *p = new %s; delete p;"), ("array", "%s a[3]; (void)a;"), ("construct", "%s a; %s b(a);"), ("initialise", "%s a; %s b = a;"),
            ("assign", "%s a; %s b; b = a;"), ("byvalue", "extern void take(%s); %s a; take(a);"),
            ("return", "struct F { static %s f() { static %s a; return a; } }; F::f();"),
            ("capture", "%s a; auto l = [a]() { return &a; }; (void)l;"), ("vector", "std::vector<%s> v; %s a; v.push_back(a);")]
KINDS = [("%d", "1", "int"), ("%s", "\"x\"", "text"), ("%f", "1.5", "double"), ("%zu", "sizeof(int)", "size"), ("%llu", "3ULL", "ull")]


def g02(ctx):
    from vf import core
    import os
    rng = random.Random(ctx.seed * 331 + 7)
    jobs = []

    def job(rec, cc, std, text, flags=()):
        jobs.append((rec, cc, std, text, flags))
    for cc, std, lang in COMPILERS:
        sets = [[{"k": "lit", "v": v, "t": t}] for t, v in LITS]
        n = 0
        while n < ctx.q(24, 400):
            e = cond(rng, rng.choice([1, 2, 2, 3]))
            if small(e) and fits(e):
                sets.append([e])
                n += 1
        tr = [s for s in sets if len(s) == 1]
        for _ in range(ctx.q(14, 150)):      # several assertions at one place
            sets.append([rng.choice(tr)[0] if rng.randrange(4) == 0 else {"k": "lit", "v": 1, "t": "1"} for _ in range(rng.randrange(2, 5))])
        for c in sets:
            spot = rng.choice(sorted(SPOTS) + (["class"] if lang == "c++" else []))
            name = rng.choice(["STATIC_ASSERT", "FUTILS_STATIC_ASSERT"])
            ls = "\n".join("%s(%s, \"text %d, of the message\");" % (name, ctext(e), i) for i, e in enumerate(c))
            if spot == "class":
                if len(c) > 1:      # one type name per class
                    continue
                body = "class K {\n%s\npublic:\nint x;\n};\n" % ls
            elif spot == "two":
                body = SPOTS["two"] % (ls, "STATIC_ASSERT(1, \"\");")
            else:
                body = SPOTS[spot] % ls
            job({"k": "assert", "c": c, "spot": spot}, cc, std, HEAD + body)
        for m in MEMBERS:
            for t in sorted(DECLS) if ctx.thorough else rng.sample(sorted(DECLS), 4) + ["int", "long", "short"]:
                name = rng.choice(["struct S", "ST"])
                two = ["extern TYPEOF_STRUCT_MEMBER(%s, %s) v;\n" % (name, m), "extern %s;\n" % DECLS[t]]
                rng.shuffle(two)
                job({"k": "member", "m": m, "as": t}, cc, std, HEAD + STRUCT + "".join(two))
        if lang == "c++":
            for t in ("C", "D", "Tpl<int>", "Tpl<C>"):
                for use, body in COPYUSES:
                    job({"k": "copy", "use": use, "type": t}, cc, std, CPPHEAD + "int main()\n{\n%s\nreturn 0;\n}\n" % body.replace("%s", t))
        for _ in range(ctx.q(12, 80)):
            w = [rng.choice(KINDS) for _ in range(rng.randrange(0, 4))]
            a = list(w)
            if rng.randrange(2):
                if a and rng.randrange(2):
                    a[rng.randrange(len(a))] = rng.choice(KINDS)
                elif a and rng.randrange(2):
                    a.pop()
                else:
                    a.append(rng.choice(KINDS))
            f = "".join(x[0] + " " for x in w) + "end"
            args = "".join(", " + x[1] for x in a)
            if rng.randrange(2):
                body = "#include <futils/safew.h>\nvoid u(struct futils_safew_file *p);\nvoid u(struct futils_safew_file *p)\n{\nfutils_safew_fprintf(p, \"%s\"%s);\n}\n" % (f, args)
            else:
                body = ("extern int log_it(int level, const char *fmt, ...) FUTILS_ATTRIBUTE_FORMAT_PRINTF(2, 3);\nvoid u(void);\nvoid u(void)\n{\n"
                        "log_it(1, \"%s\"%s);\n}\n" % (f, args))
            job({"k": "fmt", "want": [x[2] for x in w], "args": [x[2] for x in a]}, cc, std, HEAD + body,
                ("-Werror=format", "-Wformat", "-Werror=format-extra-args"))
    d = os.path.join(ctx.work, "asserts")
    os.makedirs(d)
    inc = ["-I" + os.path.join(core.HARN, "stub"), "-I" + os.path.join(core.REPO, "include"), "-D_GNU_SOURCE"]

    def compile_one(ij):
        i, (rec, cc, std, text, flags) = ij
        p = os.path.join(d, "a%d.%s" % (i, "cpp" if "++" in std else "c"))
        open(p, "w").write(text)
        rc, out, err = ctx.run([cc, "-std=" + std, "-fsyntax-only", "-w" if not flags else "-Wall", *inc, *flags, p], crash_is_violation=False,
                               what="compiler")
        return dict(rec, ok=int(rc == 0), cc=cc, std=std, text=text[text.find("class D") if rec["k"] == "copy" else len(HEAD):])
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        recs = list(ex.map(compile_one, enumerate(jobs)))
    if not any(r["ok"] for r in recs):
        raise core.CheckError("no program compiles")
    ctx.sample(recs[7])
    ctx.evals = len(recs)
    ctx.extra["programs"] = len(recs)
    ctx.extra["accepted"] = sum(r["ok"] for r in recs)
    ctx.judge("macros/AssertTrace", "", recs, "compile-time helper", shards=4)
