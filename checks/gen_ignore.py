"""G15: --ignore-field-generation-of: every subset of the types of headers whose types refer to one another in every way."""
import itertools, json, os
import embuild
from emcheck import *

KINDS = ["tag", "union", "anon", "both", "uanon", "ahead"]
REFS = ["", "ptr", "val", "arr", "fn"]


class T:
    """a composite type of the header: how it is declared and what its fields refer to"""
    def __init__(self, n, kind, refs=(), nested=""):
        self.n, self.kind, self.refs, self.nested = n, kind, list(refs), nested
        self.kw = "union" if kind in ("union", "uanon") else "struct"
        self.name = {"anon": n, "uanon": n}.get(kind, n)             # what --ignore-field-generation-of takes
        self.spell = {"tag": "struct " + n, "union": "union " + n, "anon": n, "uanon": n, "both": n + "_t", "ahead": n + "_t"}[kind]

    def text(self, by):
        b = "int %s_a; char %s_b[%d];" % (self.n, self.n, 2 + len(self.n))
        if self.nested == "anonymous":
            b += " struct { int %s_i; union { short j; long k; }; } %s_n;" % (self.n, self.n)
        elif self.nested == "named":
            b += " struct %s_in { int i; unsigned j : 3; } %s_n;" % (self.n, self.n)
        for k, (o, how) in enumerate(self.refs):
            s = by[o].spell
            b += " " + {"ptr": "%s *%%s;", "val": "%s %%s;", "arr": "%s %%s[2];", "fn": "void (*%%s)(%s *, int);"}[how] % s % ("%s_r%d" % (self.n, k))
        if self.kind in ("tag", "union"):
            return "%s { %s };\n" % (self.spell, b)
        if self.kind in ("anon", "uanon"):
            return "typedef %s { %s } %s;\n" % (self.kw, b, self.n)
        if self.kind == "both":
            return "typedef struct %s { %s } %s_t;\n" % (self.n, b, self.n)
        return "struct %s { %s };\n" % (self.n, b)

    def forward(self):
        return {"tag": "struct %s;\n" % self.n, "union": "union %s;\n" % self.n, "ahead": "typedef struct %s %s_t;\n" % (self.n, self.n)}.get(self.kind, "")


class Header:
    def __init__(self, key, types, order, fns, cpp=False):
        self.key, self.types, self.order, self.fns, self.cpp = key, types, order, fns, cpp
        by = {t.n: t for t in types}
        self.text = "#ifndef H_H\n#define H_H\nenum En { En_a, En_b = 7 };\ntypedef int Num;\n" + "".join(t.forward() for t in types) + "".join(by[n].text(by) for n in order) + "Num plain(enum En e, const char *s);\n" + "".join(fns) + "#endif\n"
        self.names = [t.name for t in types] + [t.n + "_in" for t in types if t.nested == "named"]


def funs(types, form):
    r = []
    for k, t in enumerate(types):
        s = t.spell
        r.append({"val": "%s v%d(%s a, %s *b);\n" % (s, k, s, s), "ptr": "%s *p%d(const %s *a);\n" % (s, k, s), "cb": "void c%d(int (*cb)(%s *, int));\n" % (k, s), "arr": "int r%d(%s a[3]);\n" % (k, s), "": ""}[form])
    return r


def headers(quick):
    r = []
    edges = [("A", "B"), ("B", "A"), ("B", "C"), ("C", "B"), ("A", "C"), ("C", "A")]
    n = 0
    for combo in itertools.product(REFS, repeat=6):
        refs = [(a, b, h) for (a, b), h in zip(edges, combo) if h]
        if len(refs) > (2 if quick else 3):
            continue
        val = {(a, b) for a, b, h in refs if h in ("val", "arr")}
        anyway = {(a, b) for a, b, h in refs}
        for ki in range(2 if quick or len(refs) < 3 else 1):
            n += 1
            kinds = [KINDS[(n + ki * j + n // 7 * j) % 6] for j in range(3)]
            # what is only a typedef is declared before it is used
            kd = dict(zip("ABC", kinds))
            before = val | {(a, b) for a, b in anyway if kd[b] in ("anon", "both", "uanon")}
            order = next((o for o in (itertools.permutations("ABC") if n % 2 else list(itertools.permutations("ABC"))[::-1]) if all(o.index(b) < o.index(a) for a, b in before)), None)
            if order is None:
                continue
            ts = [T(x, kd[x], [(b, h) for a, b, h in refs if a == x], ["", "anonymous", "named", ""][(n + j) % 4]) for j, x in enumerate("ABC")]
            form = ["val", "ptr", "cb", "arr", "val"][n % 5]
            fs = [f for k, f in enumerate(funs(ts, form)) if n // 5 % 4 == 3 or k == n // 5 % 4 or k == 0 and n % 3]
            r.append(Header("%s:%s:%s" % (",".join(kinds), ",".join("%s%s%s" % (a, h, b) for a, b, h in refs), form), ts, order, fs))
    # a chain, each used by value by the next: the first is used everywhere
    for d in (1, 4, 8):
        ts = [T("T%d" % k, KINDS[k % 6], [("T%d" % (k - 1), "val")] if k else []) for k in range(d)]
        r.append(Header("chain%d" % d, ts[:5], [t.n for t in ts[:5]], funs(ts[:5], "val")))
    # names which are the start or the end of other names
    for pre in itertools.permutations(["A", "AB", "BA", "A_B", "a"], 3):
        ts = [T(x, KINDS[(len(r) + k) % 6], [(pre[k - 1], "val")] if k else []) for k, x in enumerate(pre)]
        r.append(Header("names:" + "+".join(pre), ts, pre, funs(ts, "val")))
    return r


HASH = re.compile(r"easymock_generated_anonymous_type_hash_\d+")
PARAM = re.compile(r"__easymock_param\d+")


def view(path):
    """the records and functions of a generated header, as the compiler sees them: name -> fields / type"""
    rc, out = sh(["clang", "-std=gnu11", "-w", "-fsyntax-only", "-I" + FWINC, "-Xclang", "-ast-dump=json", path])
    if rc != 0:
        return None, "\n".join([l for l in out.splitlines() if "error:" in l][:3])
    recs, fns, alias = {}, {}, {}
    tree = json.loads(out)
    skip = True

    def record(n, outer):
        name = n.get("name", "")
        key = "%s %s" % (n["tagUsed"], name or outer)
        f = []
        for k, m in enumerate(n.get("inner", [])):
            if m["kind"] == "FieldDecl":
                w = [x for x in m.get("inner", []) if x["kind"] == "ConstantExpr"]
                f.append((m.get("name", ""), m["type"]["qualType"], w[0].get("value") if w else None))
            elif m["kind"] == "RecordDecl" and m.get("completeDefinition"):
                record(m, key + ".%d" % k)
        if n.get("completeDefinition"):
            recs[key] = f
    for n in tree["inner"]:
        if n["kind"] == "RecordDecl" and "tagUsed" in n:
            record(n, "")
        elif n["kind"] == "TypedefDecl":
            alias[n["name"]] = n["type"].get("desugaredQualType", n["type"]["qualType"])
        elif n["kind"] == "FunctionDecl" and not n["name"].startswith("easyMock_"):
            fns[n["name"]] = n["type"]["qualType"]
        elif n["kind"] == "EnumDecl":
            recs["enum " + n.get("name", "")] = [(m["name"], 0, 0) for m in n.get("inner", []) if m["kind"] == "EnumConstantDecl"]
    # the typedef, or else the field, names what has no name
    ren = {}
    for a, q in alias.items():
        m = HASH.search(q)
        if m:
            ren.setdefault(m.group(0), []).append(a)
    for k, v in recs.items():
        for f in v if not k.startswith("enum") else ():
            m = HASH.search(f[1])
            if m and not HASH.search(k):
                ren.setdefault(m.group(0), [k + "." + f[0]])
    for k, v in recs.items():
        for f in v if not k.startswith("enum") else ():
            m, o = HASH.search(f[1]), HASH.search(k)
            if m and o and o.group(0) in ren:
                ren.setdefault(m.group(0), [ren[o.group(0)][0] + "." + f[0]])
    sub = lambda s, k=0: re.sub(r"\((unnamed|anonymous)[^)]*\)", "(unnamed)", HASH.sub(lambda m: "<%s>" % ren.get(m.group(0), ["?"])[k], re.sub(r"(?<!struct )(?<!union )\b[A-Za-z_]\w*", lambda m: alias[m.group(0)] if HASH.search(alias.get(m.group(0), "")) is None and alias.get(m.group(0), "").startswith(("struct ", "union ")) else m.group(0), s)))
    r = {}
    for k, v in recs.items():
        m = HASH.search(k)
        for n in range(len(ren.get(m.group(0), [0])) if m else 1):
            r[sub(k, n)] = [(a, sub(b), w) for a, b, w in v] if not k.startswith("enum") else v
    return (r, fns, {k: HASH.sub("<%s>" % k, v) for k, v in alias.items()}), ""


class Ign:
    def __init__(self, c, gen):
        import threading
        self.c, self.gen, self.l = c, gen, threading.Lock()
        self.runs = self.compiled = self.n = 0

    def gen1(self, d, out, args):
        os.makedirs(d + "/" + out)
        with self.l:
            self.runs += 1
        return sh([self.gen, "-i", "h.h", "-o", out] + args, cwd=d)

    def opts(self, sub):
        return [x for n in sub for x in ("--ignore-field-generation-of", n)]

    def one(self, h):
        with self.l:
            self.n += 1
            d = "%s/i%d" % (self.c.work, self.n)
        os.makedirs(d)
        try:
            write(d + "/h.h", h.text)
            rc, out = sh(["gcc", "-std=gnu11", "-w", "-fsyntax-only", d + "/h.h"])
            if rc != 0:
                return "invalid"
            r = self.header(h, d)
            return [x + ({f: open(os.path.join(p, f), errors="replace").read() for p, _, fs in os.walk(d) for f in fs if f == "h.h"},) for x in r]
        finally:
            shutil.rmtree(d, True)

    def header(self, h, d):
        bad = []
        names = h.names
        subs = [s for k in range(len(names) + 1) for s in itertools.combinations(names, k)]
        # twice the same name, another order, unused names
        subs += [(names[0], names[0]), tuple(names[::-1]), ("Unused", names[-1]), ("unused_type",), (names[0] + "_", "_" + names[0], names[0][:-1] or "x", names[0].swapcase() if names[0].swapcase() not in names else "q"), ("En", "Num"), ("struct " + names[0],)]
        if self.c.quick:
            subs = subs[:len(subs) - 7] + subs[len(subs) - 7:][int(h.seq) % 7:][:2]
        # the original header: nothing changes
        for mode, margs in (("original", []), ("types", ["--generate-types"])):
            rc, out = self.gen1(d, "base_" + mode, margs)
            if rc != 0:
                return [("generate:" + mode, out[-200:])]
            # (the made up names of unnamed parameters are numbered)
            norm = lambda t: PARAM.sub("param", HASH.sub("anonymous", t))
            bh, bc = (open(d + "/base_%s/easyMock_h.%s" % (mode, e), errors="replace").read() for e in "hc")
            if mode == "types":
                bv, er = view(d + "/base_types/easyMock_h.h")
                if bv is None:
                    return [("baseline", er)]
            for s in subs:
                ex = [n for n in s if n in names]
                if mode == "original" and self.c.quick and len(ex) not in (0, 1, len(names)):
                    continue
                sk = "%s:%s" % (mode, "+".join(s) or "none")
                shutil.rmtree(d + "/o", True)
                pre = self.opts(s)
                rc, out = self.gen1(d, "o", margs + pre if len(s) % 2 else pre + margs)
                if rc != 0:
                    bad.append((sk + ":generate", "exit %s: %s" % (rc, out[-200:])))
                    continue
                hh, cc = (open(d + "/o/easyMock_h.%s" % e, errors="replace").read() for e in "hc")
                if mode == "original" or not ex:
                    if (norm(hh), norm(cc)) != (norm(bh), norm(bc)):
                        bad.append((sk, "the generated %s changes although %s" % ("header" if hh != bh else "mock", "the original header is used" if mode == "original" else "no type of the header is named")))
                    continue
                if norm(cc) != norm(bc):
                    bad.append((sk, "the functions of the mock change"))
                    continue
                v, er = view(d + "/o/easyMock_h.h")
                if v is None:
                    bad.append((sk, "the generated header does not compile: " + er))
                    continue
                e = self.compare(h, ex, bv, v)
                if e:
                    bad.append((sk, e))
                    continue
                if len(ex) in (1, len(names)) and (not self.c.quick or h.seq % 4 == 0):
                    with self.l:
                        self.compiled += 1
                    rc, out = sh(["gcc", "-std=gnu11", "-w", "-fsyntax-only", "-I" + FWINC, "-I" + d + "/o", d + "/o/easyMock_h.c"])
                    if rc != 0:
                        bad.append((sk, "the mock does not compile: " + "\n".join([l for l in out.splitlines() if "error" in l][:3])))
        return bad

    def compare(self, h, ex, base, got):
        """the named types are empty, what the rest needs is there, and all there is is as it was"""
        (br, bf, ba), (gr, gf, ga) = base, got
        if bf != gf:
            return "the functions differ: %s" % sorted(set(bf.items()) ^ set(gf.items()))[:2]
        by = {t.name: t for t in h.types}
        key = lambda n: "struct " + n if n not in by else "%s %s" % (by[n].kw, n if by[n].kind not in ("anon", "uanon") else "<%s>" % n)
        left = {key(n) for n in ex}
        tags = {}
        for k in br:
            tags.setdefault(k, k)
        for k, f in gr.items():
            if k in left:
                if f:
                    return "%s has the fields %s" % (k, [x[0] for x in f][:4])
            elif br.get(k) != f:
                return "%s has the fields %s instead of %s" % (k, f[:3], br.get(k, "being absent")[:3])
        for k in sorted(set(ba) & set(ga)):
            if ba[k] != ga[k]:
                return "typedef %s is %s instead of %s" % (k, ga[k], ba[k])
        # what is reachable without the fields which are left out
        seen, todo = set(), []
        text = list(bf.values())
        while text:
            t = text.pop()
            for w in re.findall(r"(?:struct|union|enum) (?:<[^>]+>|\w+)|\w+", t):
                if w in ba and w not in seen:
                    seen.add(w)
                    text.append(ba[w])
                if w in br and w not in seen:
                    seen.add(w)
                    if w not in left and not w.startswith("enum"):
                        text += [f[1] for f in br[w]]
        for k in seen:
            if k in br and k not in gr:
                return "%s is missing" % k
            if k in ba and k not in ga:
                return "typedef %s is missing" % k
        return None

    def run(self, hs):
        inv = 0
        for k, h in enumerate(hs):
            h.seq = k
        for h, bad in zip(hs, pmap(self.one, hs)):
            if bad == "invalid":
                inv += 1
                if os.environ.get("EM_ALL"):
                    print("INVALID", h.key)
                continue
            for k, tx, files in bad[:3]:
                self.c.violation("%s:%s" % (h.key, k.replace(" ", "_")), tx, files)
        return inv


def G15(c):
    gen = embuild.generator()
    hs = headers(c.quick)
    if os.environ.get("EM_COUNT"):
        print(len(hs), flush=True)
    i = Ign(c, gen)
    inv = i.run(hs)
    c.add(states=i.runs, transitions=i.runs, traces_validated_against_impl=i.runs, headers=len(hs) - inv, runs=i.runs, compiled_mocks=i.compiled, not_accepted_by_the_compiler=inv)
    for h in hs[:: max(1, len(hs) // 10)]:
        c.sample(h.key)
    c.assumptions += ["a type is named by its tag, or by its typedef name when it has no tag", "types which only the left out fields refer to need not be generated", "clang's view of the generated header is compared: records, fields, widths, typedefs, functions"]
