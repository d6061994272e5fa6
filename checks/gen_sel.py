"""G02: exactly the selected functions are mocked, each once."""
import itertools
import embuild
from emcheck import *
from gen_tool import mocked, strip_comments

# form -> (text, declares in header, declares in included file, keeps it from being mocked with the original header)
#   @ is the function's name, ~ the part of it before its last character and ^ that character
FORMS = {
    "P": ("int @(int a);", 1, 0, 0),
    "Pu": ("int @(int);", 1, 0, 0),
    "Px": ("extern int @(int b);", 1, 0, 0),
    "Pt": ("TI @(const TI q);", 1, 0, 0),
    "Pp": ("int (@)(int (a));", 1, 0, 0),
    "KR": ("int @();", 1, 0, 0),
    "FT": ("TFN @;", 1, 0, 0),
    "CM": ("int v_@, @(int k), *w_@;", 1, 0, 0),
    "MC": ("DECLFN(@)", 1, 0, 0),
    "PS": ("PASTE(~, ^)", 1, 0, 0),
    "AT": ("int @(int a) __attribute__((warn_unused_result));", 1, 0, 0),
    "MU": ("#define @(x) nothing\n#undef @\nint @(int z);", 1, 0, 0),
    "IN": ("int @(int i);", 0, 1, 0),
    "LN": ("#line 12 \"gone.y\"\nint @(int a);", 1, 0, 0),
    "IF": ("#if 0\nint @(int a);\n#endif", 0, 0, 0),
    "FP": ("extern int (*p_@)(int @);", 0, 0, 0),
    "D": ("int @(int a) { return a; }", 1, 0, 1),
    "S": ("static int @(int a);", 1, 0, 1),
    "SD": ("static inline int @(int a) { return a; }", 1, 0, 1),
    "I": ("inline int @(int a);", 1, 0, 1),
    "ID": ("extern inline int @(int a) { return a; }", 1, 0, 1),
    "NR": ("int @(int a) __attribute__((noreturn));", 1, 0, 1),
    "_N": ("_Noreturn int @(int a);", 1, 0, 1),
    "INS": ("static inline int @(int a) { return a; }", 0, 1, 1),
    "IND": ("inline int @(int a) { return a; }", 0, 1, 1),
}
C_ONLY = {"KR", "_N"}
PRE = "#ifndef HDR_%s\n#define HDR_%s\ntypedef int TI;\ntypedef int TFN(int);\n#define DECLFN(n) int n(int m);\n#define PASTE(a, b) int a##b(int p);\n"


def text(form, name):
    return FORMS[form][0].replace("@", name).replace("~", name[:-1]).replace("^", name[-1])


def headers(seqs, names):
    """section k of the header holds the k-th declaration of every function; included ones come from inc<k>.h"""
    files, h = {}, [PRE % ("H", "H")]
    for k in range(max(len(s) for s in seqs)):
        inc = [PRE.replace("HDR", "INC%d" % k) % ("H", "H")]
        inc = ["#ifndef INC%d_H\n#define INC%d_H\n" % (k, k)]
        main = []
        for s, n in zip(seqs, names):
            if k < len(s):
                (inc if s[k] in ("IN", "INS", "IND") else main).append(text(s[k], n) + "\n")
        h.append('#include "inc%d.h"\n' % k)
        files["inc%d.h" % k] = "".join(inc) + "#endif\n"
        h += main
    files["h.h"] = "".join(h) + "#endif\n"
    return files


def expected(seq, name, types, incl, only, ign):
    if only and name not in only or name in ign:
        return False
    if not (any(FORMS[f][1] for f in seq) or incl and any(FORMS[f][2] for f in seq)):
        return False
    if not types and any(FORMS[f][3] for f in seq):
        return False
    return True


def G02(c):
    gen = embuild.generator()
    import threading
    runs = [0, 0]

    def put(d, files):
        for n, t in files.items():
            write(d + "/" + n, t)

    def valid(seqs, tag, cpp):
        """the sequences the compiler accepts"""
        ok = []

        def chk(a):
            k, ss = a
            d = c.work + "/v%s%d" % (tag, k)
            names = ["fn%dx" % i for i in range(len(ss))]
            put(d, headers(ss, names))
            rc, out = sh((["clang++", "-x", "c++"] if cpp else ["clang", "-x", "c"]) + ["-fsyntax-only", "-w", d + "/h.h"])
            if rc == 0 or len(ss) == 1:
                shutil.rmtree(d, True)
                return ss if rc == 0 else []
            m = len(ss) // 2
            return chk((k, ss[:m])) + chk((k, ss[m:]))
        for r in pmap(chk, [(i, seqs[i:i + 16]) for i in range(0, len(seqs), 16)]):
            ok += r
        return ok

    def run(d, args, names, cpp, comp):
        """-> (stage, text) or set of mocked names"""
        o = tempfile.mkdtemp(dir=d)
        try:
            rc, out = sh([gen, "-i", d + "/h.h", "-o", o] + args + (["--mock-cpp"] if cpp else []))
            with c.lock:
                runs[0] += 1
            if rc != 0:
                return "exit %s: %s" % (rc, out[-300:])
            x = "cpp" if cpp else "c"
            if not comp:
                ht = open(o + "/easyMock_h.h").read()
                got = re.findall(r"\b(\w+)_ExpectAndReturn\(", ht) if not cpp else re.findall(r"namespace (\w+)\s*\{\s*void ExpectAndReturn", ht)
                if len(got) != len(set(got)):
                    return "mocked more than once: %s" % sorted({g for g in got if got.count(g) > 1})
                return set(got)
            with c.lock:
                runs[1] += 1
            rc, out = sh((["g++", "-std=gnu++17"] if cpp else ["gcc", "-std=gnu11"]) + ["-w", "-c", "-I" + d, "-I" + o, "-I" + FWINC, o + "/easyMock_h." + x, "-o", o + "/m.o"])
            if rc != 0:
                return "the mock does not compile: " + "; ".join([l.replace(o, "") for l in out.splitlines() if "error" in l][:3])
            rc, out = sh(["nm", "-C", "--defined-only", o + "/m.o"])
            sym = re.findall(r" T (?:EasyMock::)?(\w+?)(?:_|::)ExpectAndReturn(?:\(.*)?$", out, re.M)
            fun = set(re.findall(r" T (\w+)(?:\(int\))?$", out, re.M))
            if len(sym) != len(set(sym)):
                return "mocked more than once: %s" % sorted(sym)
            if not set(sym) <= fun:
                return "not defined: %s" % sorted(set(sym) - fun)
            return set(sym)
        finally:
            shutil.rmtree(o, True)

    def optsets(names):
        half, third = names[::2], names[::3]
        a = lambda o, l: [y for x in l for y in (o, x)]
        T, I = ["--generate-types"], ["--generate-included-functions"]
        for t, i in itertools.product((0, 1), repeat=2):
            for o, g in ((0, 0), (1, 0), (0, 1), (1, 1)):
                yield (t, i, set(half) if o else set(), set(third) if g else set()), (T if t else []) + (I if i else []) + a("--mock-only", half if o else []) + a("--ignore-generation-of", third if g else [])

    def batch(job):
        k, seqs, cpp, few = job
        names = ["fn%dx" % i for i in range(len(seqs))]
        d = c.work + "/b%s%d_%d" % ("x" if cpp else "c", k, len(seqs))
        os.makedirs(d, exist_ok=True)
        d = tempfile.mkdtemp(dir=d)
        files = headers(seqs, names)
        put(d, files)
        bad = []
        for n, ((t, i, only, ign), args) in enumerate(optsets(names)):
            if few and n % 4 and n != 13:
                continue
            want = {nm for s, nm in zip(seqs, names) if expected(s, nm, t, i, only, ign)}
            # with generated types the mock is on its own; with the original header it must fit to it
            got = run(d, args, names, cpp, comp=(n in (0, 3, 4, 8, 12)))
            if got != want:
                if len(seqs) == 1:
                    bad.append(("%s:%s:%s" % ("cpp" if cpp else "c", ",".join(seqs[0]), "".join(args)), "%s with %s: %s" % (
                        "; ".join(text(f, "fn") for f in seqs[0]).replace("\n", " | "), " ".join(args) or "no options", got if isinstance(got, str) else "mocked %s" % ("although it must not be" if got else "not, although it must be")), files))
                else:
                    diff = set() if isinstance(got, str) else {names.index(x) for x in want ^ got if x in names}
                    m = len(seqs) // 2
                    parts = [[seqs[x]] for x in sorted(diff)[:20]] if diff else [seqs[:m], seqs[m:]]
                    sub = []
                    for p in parts:
                        sub += batch((k, p, cpp, few))
                    shutil.rmtree(d, True)
                    return sub or [("together:%s:%d:%s" % ("cpp" if cpp else "c", k, "".join(args)), "a header of %d functions with %s: %s; each alone is right" % (
                        len(seqs), " ".join(args), got if isinstance(got, str) else sorted(want ^ got)), files)]
        shutil.rmtree(d, True)
        return bad

    forms = list(FORMS)
    base = ["P", "Pu", "Px", "Pt", "KR", "FT", "CM", "MU", "IN", "D", "S", "SD", "I", "ID", "NR", "INS"]
    base4 = ["P", "Pt", "KR", "IN", "D", "S", "ID", "NR"]
    seqs = [(f,) for f in forms] + list(itertools.product(forms, repeat=2)) + list(itertools.product(["P", "IN", "D", "S", "I", "KR"] if c.quick else base, repeat=3))
    if not c.quick:
        seqs += list(itertools.product(base4, repeat=4))
    jobs = []
    nseq = {}
    for cpp in (False, True):
        ss = [s for s in dict.fromkeys(seqs) if not (cpp and set(s) & C_ONLY)]
        ss = valid(ss, "x" if cpp else "c", cpp)
        nseq["cpp" if cpp else "c"] = len(ss)
        B = 24
        jobs += [(i, ss[i:i + B], cpp, c.quick) for i in range(0, len(ss), B)]
        # the same sequences in another company, so that every function also stands first, in the middle and last
        jobs += [(100000 + i, ss[::-1][i + 7:i + 7 + 2 * B:2], cpp, True) for i in range(0, len(ss), 2 * B if c.quick else B)]
        # every pair of forms next to each other, alone in a header
        if not cpp or not c.quick:
            single = [s for s in ss if len(s) == 1]
            pair = list(itertools.product(single, repeat=2))
            jobs += [(200000 + i, list(p), cpp, True) for i, p in enumerate(pair if not c.quick else pair[::2])]
    ns = 0
    for r in pmap(batch, [j for j in jobs if j[1]]):
        for key, why, files in r:
            c.violation(key.replace(" ", "_"), why, files)
    ns = sum(len(j[1]) for j in jobs)

    # included files of every name and place: only what stands in the header itself is its own, whatever the other files are called
    PLACES = ["sub/h.h", "sub/sub/h.h", "../h.h", "../other/h.h", "sub/x.h", "xh.h", "h.hh", "h.h.h", "H.h", "h", "sub/dir/easyMock_h.h", "h.c", "inc_link.h"]

    def inc_case(job):
        k, chain, angle, mid = job
        d = "%s/inc%d/m" % (c.work, k)
        os.makedirs(d)
        names, cur, body = [], "h.h", {}
        # chain: every file includes the next; or all included by the header (mid)
        for j, p in enumerate(chain):
            f = os.path.normpath(os.path.join(d, p))
            names.append("in%d" % j)
            body[f] = "int in%d(int a);\n" % j
        order = [os.path.normpath(os.path.join(d, p)) for p in chain]
        for j, f in enumerate(order):
            nxt = '#include "%s"\n' % os.path.relpath(order[j + 1], os.path.dirname(f)) if not mid and j + 1 < len(order) else ""
            g = "#ifndef G%d\n#define G%d\n" % (j, j)
            if f.endswith("inc_link.h"):
                write(d + "/linked/h.h", g + body[f] + ('#include "%s"\n' % order[j + 1] if nxt else "") + "#endif\n")
                os.symlink("linked/h.h", f)
            else:
                write(f, g + body[f] + nxt + "#endif\n")
        q = lambda p: "#include <%s>\n" % p if angle else '#include "%s"\n' % p
        incs = [q(p) for p in (chain if mid else chain[:1])]
        write(d + "/h.h", "int first(int a);\n" + "".join(incs) + "int in0(int a);\n" * (len(chain) > 1) + "int last(int a);\n")
        bad = []
        for t, i in itertools.product((0, 1), repeat=2):
            o = tempfile.mkdtemp(dir=os.path.dirname(d))
            rc, out = sh([gen, "-i", d + "/h.h", "-o", o] + (["--generate-types"] if t else []) + (["--generate-included-functions"] if i else []) + (["-I" + d] if angle else []))
            got = sorted(set(re.findall(r"\b(\w+)_ExpectAndReturn\(", open(o + "/easyMock_h.h").read()))) if rc == 0 else "exit %s: %s" % (rc, out[-200:])
            want = sorted({"first", "last"} | ({"in0"} if len(chain) > 1 else set()) | (set(names) if i else set()))
            if got != want:
                bad.append(("include:%s:%d%d%d%d" % (",".join(chain), angle, mid, t, i), "a header including %s%s%s: mocked %s instead of %s" % (", ".join(chain), " with --generate-types" if t else "", " with --generate-included-functions" if i else "", got, want), {"h.h": open(d + "/h.h").read()}))
        return bad
    ij = [((p,), a, 1) for p in PLACES for a in (0, 1)] + [(q, a, m) for q in itertools.permutations(PLACES, 2) for a, m in (((0, 0), (0, 1)) if c.quick else itertools.product((0, 1), repeat=2))]
    for r in pmap(inc_case, [(k,) + j for k, j in enumerate(ij)]):
        for key, why, files in r:
            c.violation(key, why, files)
    c.add(include_layouts=len(ij))

    # selecting one function never changes what is generated for another: its part of the mock is the same whatever else is selected
    SEL = """#include <stddef.h>
struct A { int a; struct { short x; char y[3]; } in; }; union B { int i; float f; }; enum E { E1, E2 = 7 }; typedef struct { struct A a; enum E e; } C; struct Fwd; typedef int (*cb)(struct Fwd *, C);
int f0(void); void f1(struct A a); C f2(struct A *a, const C *c); enum E f3(union B b, cb x); int f4(const char *fmt, ...); struct Fwd *f5(struct Fwd *p, void *v, size_t n); cb f6(enum E e[3]);
"""
    names = ["f%d" % i for i in range(7)]

    def parts(o, types):
        """API declarations and code per function"""
        flat = lambda f: re.sub(r"\s+", " ", re.sub(r"^\s*#.*(?:\\\n.*)*$", "", strip_comments(open(o + "/easyMock_h." + f).read()), flags=re.M))
        src, hdr = flat("c"), flat("h")
        r = {}
        for n in names:
            hs = sorted(x.strip() for x in re.split(r"[;{}]", hdr) if re.search(r"\b%s(_\w+)?\s*\(" % n, x))
            fs = []
            for m in re.finditer(r"\b%s(_\w+)?\(" % n, src):
                j = src.find("{", m.end())
                if j < 0 or src.find(";", m.end(), j) >= 0 or src[m.start() - 1] not in " *":
                    continue
                lvl, e = 0, j
                while True:
                    lvl += {"{": 1, "}": -1}.get(src[e], 0)
                    e += 1
                    if lvl == 0:
                        break
                # unnamed parameters are numbered in order of appearance; the numbers carry no meaning
                fs.append(src[m.start():e])
            r[n] = re.sub(r"__easymock_param\d+", "__param", str((hs, sorted(set(fs)))))
        return r
    write(c.work + "/sel/h.h", SEL)

    def sel(job):
        how, sub, types = job
        o = tempfile.mkdtemp(dir=c.work + "/sel")
        lst = sub if how == "only" else [n for n in names if n not in sub]
        opt = "--mock-only" if how == "only" else "--ignore-generation-of"
        rc, out = sh([gen, "-i", c.work + "/sel/h.h", "-o", o] + [y for x in lst for y in (opt, x)] + (["--generate-types"] if types else []))
        p = parts(o, types) if rc == 0 else None
        shutil.rmtree(o, True)
        return job, rc, p
    subs = [s for k in range(1, 8) for s in itertools.combinations(names, k)]
    if c.quick:
        subs = [s for s in subs if len(s) in (1, 2, 6, 7)]
    full = {t: sel(("ign", tuple(names), t))[2] for t in (0, 1)}
    sj = [(h, s, t) for h in ("only", "ign") for s in subs for t in (0, 1)]
    for (h, s, t), rc, p in pmap(sel, sj):
        if rc != 0:
            c.violation("subset:%s:%s:%d" % (h, "+".join(s), t), "exit %s" % rc, {"h.h": SEL})
            continue
        for n in names:
            a, b_ = p[n], full[t][n]
            if n in s and a != b_:
                i = next(k for k in range(len(a)) if k >= len(b_) or a[k] != b_[k]) if a != b_[:len(a)] else len(a)
                c.violation("subset:%s:%s:%d:%s" % (h, "+".join(s), t, n), "selecting %s with %s changes what is generated for %s: '%s' instead of '%s'" % (",".join(s), h, n, a[max(0, i - 40):i + 60], b_[max(0, i - 40):i + 60]), {"h.h": SEL})
            if n not in s and re.search(r"\b%s_ExpectAndReturn\(" % n, a):
                c.violation("subset:%s:%s:%d:%s" % (h, "+".join(s), t, n), "%s is mocked although only %s are selected" % (n, ",".join(s)), {"h.h": SEL})
    c.add(states=ns, transitions=runs[0] + len(sj) + 4 * len(ij), traces_validated_against_impl=runs[0] + len(sj) + 4 * len(ij), compiled=runs[1], sequences_c=nseq["c"], sequences_cpp=nseq["cpp"], subsets=len(sj), forms=len(FORMS))
    for j in jobs[:: max(1, len(jobs) // 8)]:
        c.sample(" / ".join(",".join(s) for s in j[1][:4]) + (" (C++)" if j[2] else ""))
    c.assumptions += ["clang 18 decides which sequences of declarations are valid", "a function that is defined, inline, static or noreturn is only mocked with --generate-types, where the original header is not used"]
