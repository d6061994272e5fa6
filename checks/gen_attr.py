"""G11: function attributes. clang's view of the attributes of the declarations of a header against the ones of the generated declarations."""
import itertools, os, re
import embuild
from emcheck import *
from cgram import *
from cmock import Fn, Lab

# name as written, arguments, signature
A, B, C_ = "A", "B", "C"
ATTRS = [("format", "(printf, 1, 4)", A), ("format", "(scanf,1,4)", A), ("__format__", "(__printf__, 1, 0)", A), ("nonnull", "", A), ("nonnull", "(1)", A), ("nonnull", "(1, 2)", A), ("noinline", "", A), ("cold", "", A), ("hot", "", A), ("deprecated", "", A), ("deprecated", "(\"a, b)(x\")", A),
         ("deprecated", "(\"quo\\\"te, \\\\\")", A), ("section", "(\".sec.a\")", A), ("__section__", "(\".sec.b\")", A), ("aligned", "(16)", A), ("aligned", "(sizeof(int) * 4)", A), ("visibility", "(\"default\")", A), ("pure", "", A), ("__pure__", "", A), ("unused", "", A), ("used", "", A), ("warn_unused_result", "", A), ("weak", "", A), ("nothrow", "", A),
         ("leaf", "", A), ("no_instrument_function", "", A), ("flatten", "", A), ("target", "(\"avx,sse3\")", A),
         ("malloc", "", B), ("alloc_size", "(1)", B), ("alloc_size", "(1, 2)", B), ("alloc_align", "(1)", B), ("assume_aligned", "(8)", B), ("assume_aligned", "(16, 8)", B), ("returns_nonnull", "", B), ("const", "", B), ("__noinline__", "", B), ("format_arg", "(1)", C_)]


def sig(s, name):
    return {A: "int %s(const char *s, void *p, int n, ...)", B: "void *%s(int a, int b)", C_: "char *%s(char *s)"}[s] % name


def split_sig(s):
    return {A: "int ", B: "void *", C_: "char *"}[s]


class AF:
    """one function: attributes (indexes into ATTRS) and where they are"""
    def __init__(self, name, idx, place):
        self.name, self.idx, self.place = name, idx, place
        self.s = ATTRS[idx[0]][2]
        self.key = "%s:%s" % (place, "+".join(ATTRS[i][0] + ATTRS[i][1].replace(" ", "") for i in idx))
        self.written = {ATTRS[i][0] for i in idx}

    def text(self, cpp=False):
        n, k = self.name, self.place
        xs = [ATTRS[i][0] + ATTRS[i][1] for i in self.idx]
        g = ["__attribute__((%s))" % x for x in xs]
        d, rt = sig(self.s, n), split_sig(self.s)
        rest = d[len(rt):]
        if k == "before":
            return "%s %s;" % (g[0], d)
        if k == "after":
            return "%s %s;" % (d, g[0])
        if k == "middle":
            return "%s %s %s;" % (rt, g[0], rest)
        if k == "extern":
            return "extern %s %s;" % (g[0], d)
        if k == "layout":
            return "%s\n/* a comment */ %s // another\n  %s\n;" % (g[0], rt, rest)
        if k == "object_macro":
            return "#define AT_%s %s\nAT_%s %s;" % (n, g[0], n, d)
        if k == "macro_after":
            return "#define AT_%s %s\n%s AT_%s;" % (n, g[0], d, n)
        if k == "macro_name":
            return "#define AN_%s %s\n__attribute__((AN_%s)) %s;" % (n, xs[0], n, d)
        if k == "macro_param":
            return "#define AP_%s(...) __attribute__((__VA_ARGS__))\nAP_%s(%s) %s;" % (n, n, xs[0], d)
        if k == "redeclared":
            return "%s;\n%s %s;" % (d, g[0], d)
        if k == "declared_then_plain":
            return "%s %s;\n%s;" % (g[0], d, d)
        if k == "spaces":
            return "__attribute__  (\n( %s )\n) %s;" % (xs[0], d)
        if k == "short":
            return "__attribute((%s)) %s;" % (xs[0], d)
        if k == "brackets":
            return "[[gnu::%s]] %s;" % (xs[0], d) if cpp else "__attribute__((__unused__)) %s %s;" % (d, g[0])
        if k == "empty":
            return "__attribute__((, %s,)) %s __attribute__(());" % (xs[0], d)
        if k == "param":
            # attributes of a parameter are not the ones of the function
            return "%s %s;" % (g[0], d.replace("(", "(__attribute__((unused)) ", 1))
        if k == "one_list":
            return "__attribute__((%s)) %s;" % (", ".join(xs), d)
        if k == "two_lists":
            return "%s %s %s;" % (g[0], " ".join(g[1:]), d)
        if k == "around":
            return "%s %s %s;" % (g[0], d, " ".join(g[1:]))
        if k == "two_macros":
            return "#define A1_%s %s\n#define A2_%s %s\nA1_%s A2_%s %s;" % (n, g[0], n, " ".join(g[1:]), n, n, d)
        if k == "one_macro":
            return "#define AB_%s %s\nAB_%s %s;" % (n, " ".join(g), n, d)
        if k == "two_declarations":
            return "%s %s;\n%s %s;" % (g[0], d, d, " ".join(g[1:]))
        raise KeyError(k)


SINGLE = ["before", "after", "middle", "extern", "layout", "object_macro", "macro_after", "macro_name", "macro_param", "redeclared", "declared_then_plain", "spaces", "short", "brackets", "empty", "param"]
PAIR = ["one_list", "two_lists", "around", "two_macros", "one_macro", "two_declarations"]
CONFLICT = [{"cold", "hot"}, {"pure", "const"}, {"pure", "__pure__"}, {"section", "__section__"}, {"noinline", "flatten"}, {"__noinline__", "flatten"}]


def compatible(i, j):
    a, b = ATTRS[i], ATTRS[j]
    base = lambda x: x.strip("_")
    if a[2] != b[2] or ({a[0], b[0]} in CONFLICT):
        return False
    return base(a[0]) != base(b[0]) or a[0] == b[0] == "format"


def clang_attrs(path, lang, incs, pre):
    """function name -> set of the attributes clang sees on its last declaration (kind and arguments)"""
    rc, out = sh(["clang", "-w", "-fsyntax-only", "-Xclang", "-ast-dump", "-Xclang", "-ast-dump-filter=" + pre, "-fno-color-diagnostics"] + (["-x", "c++", "-std=gnu++17"] if lang == "c++" else ["-x", "c", "-std=gnu11"]) + ["-I" + i for i in incs] + [path], timeout=200)
    if rc != 0:
        return None, "\n".join([l for l in out.splitlines() if "error:" in l][:3])
    res, cur = {}, None
    for l in out.splitlines():
        m = re.match(r"^(FunctionDecl|CXXMethodDecl) 0x\w+ (.*)$", l)
        if m:
            m2 = re.search(r"\b(%s\w*) '" % pre, l)
            # parameters, calls.. start with other lines
            cur = m2.group(1) if m2 else None
            if cur:
                res[cur] = set()
            continue
        if re.match(r"^\w+Decl 0x|^Dumping ", l):
            cur = None
            continue
        m = re.match(r"^[|` ]-(\w+)Attr 0x\w+ (.*)$", l)
        if m and cur:
            args = re.sub(r"<[^<>]*(<[^<>]*>[^<>]*)*>\s*|\bInherited\b\s*|\bImplicit\b\s*", "", m.group(2))
            if " Implicit" in l:
                continue
            res[cur].add((m.group(1), args.strip()))
        # the expressions some attributes have: a value per line
        m = re.match(r"^[|` ]\s+[|`]-(ConstantExpr|value:)", l)
        m = re.search(r"\|?-value: (.*)$", l)
        if m and cur and re.match(r"^[| ] [|` ]", l):
            res[cur].add(("value", m.group(1)))
    return res, ""


KIND = {}


def kinds(c):
    """clang's kind of every attribute of the table"""
    for i, (n, a, s) in enumerate(ATTRS):
        f = AF("atfp%d" % i, [i], "before")
        p = os.path.join(c.work, "k%d.c" % i)
        write(p, f.text() + "\n")
        r, out = clang_attrs(p, "c", [], "atfp")
        ks = {k for k, _ in r["atfp%d" % i] if k != "value"}
        assert len(ks) == 1, (n, a, r, out)
        KIND[n] = ks.pop()


def G11(c):
    gen, fw = embuild.generator(), embuild.framework("plain")
    kinds(c)
    singles = [AF("atf%d" % k, [i], p) for k, (i, p) in enumerate(itertools.product(range(len(ATTRS)), SINGLE))]
    prs = [(i, j) for i in range(len(ATTRS)) for j in range(len(ATTRS)) if i != j and compatible(i, j)]
    pairs = [AF("atfq%d" % k, [i, j], PAIR[p]) for k, ((i, j), p) in enumerate(itertools.product([x for x in prs if x[0] < x[1] or not c.quick], range(len(PAIR)))) if not c.quick or (x_(i, j) + p) % 3 == 0]
    # in C++, nothrow is part of the type
    ok = lambda f: not ("nothrow" in f.written and f.place in ("redeclared", "declared_then_plain", "two_declarations"))
    singles, pairs = [f for f in singles if ok(f)], [f for f in pairs if ok(f)]
    names = sorted({a[0] for a in ATTRS})
    trip = []
    for k, (x, y, z) in enumerate(itertools.combinations(range(len(ATTRS)), 3)):
        if compatible(x, y) and compatible(y, z) and compatible(x, z) and (x + 2 * y + 3 * z) % (61 if c.quick else 29) == 0:
            trip.append(AF("atft%d" % k, [x, y, z], PAIR[k % len(PAIR)]))
    trip = [f for f in trip if ok(f)]
    groups = [("single", singles[i:i + 160]) for i in range(0, len(singles), 160)] + [("pair", pairs[i:i + 200]) for i in range(0, len(pairs), 200)] + [("triple", trip[i:i + 200]) for i in range(0, len(trip), 200)]
    reqs = [()] + [(n,) for n in names] + [tuple(names), ("form",), ("format_ar",), ("ormat",), ("FORMAT",), ("printf",), ("1",), ("nonnul", "nonnull_", "_nonnull"), ("unknown_attribute",), ("int",), ("",), ("cold", "cold"), tuple(reversed(names)) + ("nothing",), ("gnu::cold",), ("constructor", "destructor"), ("a", "b")]
    if not c.quick:
        reqs += list(itertools.combinations(names, 2))
    else:
        reqs += [p for k, p in enumerate(itertools.combinations(names, 2)) if k % 23 == 0]
    modes = [("c", []), ("c", ["--generate-types"]), ("c++", ["--mock-cpp"])]
    stat = {"declarations": 0, "runs": 0}

    def header(fns, mode, bare=False):
        text = lambda f: sig(f.s, f.name) + (" noexcept;" if mode == "c++" and "nothrow" in f.written else ";") if bare else f.text(mode == "c++")
        body = "\n".join(text(f) for f in fns)
        if mode == "c++":
            # half of the functions are in a namespace, a sixth are members
            t = ["#include <stddef.h>"]
            for k, f in enumerate(fns):
                x = text(f)
                if k % 6 == 1 and f.place not in ("redeclared", "declared_then_plain", "two_declarations", "extern", "middle") and not any(ATTRS[i][0] in ("nonnull", "format", "__format__", "alloc_size", "alloc_align", "format_arg") for i in f.idx):
                    t.append("struct St%d {\n%s\n};" % (k, x))
                elif k % 2:
                    t.append("namespace nn {\n%s\n}" % x)
                else:
                    t.append(x)
            body = "\n".join(t)
        return "#ifndef H_H\n#define H_H\n%s\n#endif\n" % body

    # what clang sees on the declarations of the header
    def truth(j):
        g, mode = j
        d = os.path.join(c.work, "t%d%s" % (g, mode))
        os.makedirs(d, exist_ok=True)
        write(d + "/h.h", header(groups[g][1], mode))
        r, out = clang_attrs(d + "/h.h", mode, [], "atf")
        assert r is not None, "\n".join(x for x in out.splitlines() if "error:" in x)[-900:]
        return r
    tj = [(g, m) for g in range(len(groups)) for m in ("c", "c++")]
    T = dict(zip(tj, pmap(truth, tj)))

    def job(j):
        g, (mode, margs), req = j
        fns = groups[g][1]
        d = os.path.join(c.work, "j%d_%d_%d" % (g, modes.index((mode, margs)), reqs.index(req)))
        os.makedirs(d + "/stub")
        bad = []
        try:
            write(d + "/h.h", header(fns, mode))
            args = margs + [x for n in req for x in ("--generate-attribute", n)]
            rc, out = generate(gen, d + "/h.h", d, args)
            if rc != 0:
                return [(fns[0], "generate", "exit %s: %s" % (rc, out[-300:]), args)]
            srcs = [(d + "/easyMock_h." + ("cpp" if mode == "c++" else "c"), True)]
            if "--generate-types" in margs:
                srcs.append((d + "/easyMock_h.h", False))
            strip_h = header(fns, mode, True)
            # the original header without any attribute: only generated text has some
            os.rename(d + "/h.h", d + "/orig")
            write(d + "/stub/h.h", strip_h)
            for src, isdef in srcs:
                # the bodies only make the output of clang long
                r = None
                if mode == "c":
                    write(src + ".short.c", re.sub(r"(?ms)^\{\n.*?^\}\n", ";\n", open(src).read()))
                    r, out = clang_attrs(src + ".short.c", mode, [d, d + "/stub", FWINC], "atf")
                if r is None:
                    r, out = clang_attrs(src, mode, [d + "/stub", FWINC], "atf")
                if r is None:
                    bad.append((fns[0], "compile", out, args))
                    continue
                for f in fns:
                    stat["declarations"] += 1
                    if f.name not in r:
                        bad.append((f, "missing", "no declaration of %s in %s" % (f.name, os.path.basename(src)), args))
                        continue
                    want = {(KIND[n]) for n in req if n in f.written}
                    full = T[(g, mode)][f.name]
                    exp = {x for x in full if x[0] in want}
                    got = {x for x in r[f.name] if x[0] != "value"}
                    if got != exp:
                        bad.append((f, "attributes", "%s: wanted %s, generated %s" % (os.path.basename(src), sorted(exp), sorted(got)), args))
                    elif exp:
                        # values of the expressions: the ones generated are among the original's, and all of them if everything was requested
                        v, w = {x for x in r[f.name] if x[0] == "value"}, {x for x in full if x[0] == "value"}
                        if not v <= w or (f.written <= set(req) and v != w):
                            bad.append((f, "values", "%s: wanted %s, generated %s" % (os.path.basename(src), sorted(w), sorted(v)), args))
                for n in r:
                    if n not in {f.name for f in fns} and {x for x in r[n] if x[0] in set(KIND.values())}:
                        bad.append((fns[0], "other", "%s has %s" % (n, sorted(r[n])), args))
            stat["runs"] += 1
        finally:
            shutil.rmtree(d, True)
        return bad

    jobs = []
    for g, (kind_, fns) in enumerate(groups):
        for m in modes:
            for q, req in enumerate(reqs):
                if kind_ != "single" and len(req) == 2 and (q + g) % (5 if c.quick else 23):
                    continue
                if m[0] == "c++" and (q + g) % (3 if c.quick else 4):
                    continue
                if not c.quick and len(req) == 2 and m[1] and (q + g) % 3:
                    continue
                if kind_ != "single" and (q + g + modes.index(m)) % (4 if c.quick else 6) and len(req) < 10:
                    continue
                jobs.append((g, m, req))
    if os.environ.get('EM_COUNT'): print(len(jobs), len(groups), len(reqs), flush=True)
    seen = set()
    for j, bad in zip(jobs, pmap(job, jobs)):
        for f, stage, text, args in bad:
            k = "%s:%s:%s" % (stage, "types" if "--generate-types" in args else "cpp" if "--mock-cpp" in args else "c", f.key)
            if k in seen:
                continue
            seen.add(k)
            c.violation(k, "%s with %s: %s" % (f.text(), " ".join(args[:8]), text), {"h.h": header([f], j[1][0])},
                        script="d=$(mktemp -d); cp \"$(dirname \"$0\")\"/h.h $d; %s -i $d/h.h -o $d %s; grep -n 'attribute' $d/easyMock_h.*" % (gen, " ".join("'%s'" % a for a in args)))

    # the mocks behave the same whatever is requested
    INT, CHAR = b("int", "INT"), b("char", "INT")
    ptr = lambda t: ("p", t, "")
    rets = {A: (INT, [(ptr(("q", "const", CHAR)), "s"), (ptr(VOID), "p"), (INT, "n")], True), B: (ptr(VOID), [(INT, "a"), (INT, "b")], False), C_: (ptr(CHAR), [(ptr(CHAR), "s")], False)}
    nb = 0
    for rq in ([], names, names[::2]) if not c.quick else ([], names):
        lab = Lab(c, gen, fw, args=[x for n in rq for x in ("--generate-attribute", n)])
        use = [f for f in singles + (trip if not c.quick else trip[:40]) if not any(ATTRS[i][0] == "format_arg" for i in f.idx) or True]
        fl = []
        for f in use:
            r, ps, va = rets[f.s]
            fl.append(Fn(f.name, r, ps, va, raw=f.text(), key="behaviour:%d:%s" % (len(rq), f.key)))
        lab.run(fl, size=64)
        nb += len(fl)
    c.add(states=stat["declarations"] + nb * 12, transitions=stat["runs"] + nb * 12, traces_validated_against_impl=stat["runs"], declarations=stat["declarations"], runs=stat["runs"], functions=len(singles) + len(pairs) + len(trip), requests=len(reqs), behaviour_functions=nb)
    for f in (singles + pairs)[:: max(1, (len(singles) + len(pairs)) // 10)]:
        c.sample(f.text())
    c.assumptions += ["clang 18 decides which attributes a declaration has", "attributes clang does not know cannot be requested", "names are matched as they are written (format and __format__ differ)"]


def x_(i, j):
    return i * 7 + j
