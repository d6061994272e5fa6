"""Checks of whole runs of the generator: G08 (determinism), G09 (headers that do not parse)."""
import itertools
import embuild
from emcheck import *
from gen_tool import mocked, outputs, strip_comments

G08_INC = """#ifndef INC_H
#define INC_H
#define INC_A 1
#define INC_B(x, y) ((x) + (y))
struct IncS { int a; struct { int x; union { char c; long l; }; } n; };
enum IncE { IE_Z = 9, IE_A = -1, IE_M = 4 };
int inc_f(struct IncS *s, enum IncE e);
void inc_g(struct IncS s);
int inc_h(int, int);
#endif
"""
G08_C = """#ifndef G08_H
#define G08_H
#include <stddef.h>
#include "inc.h"
#define ZED 26
#define ALPHA "a" "b"
#define MID(x) #x
#define GONE 1
#undef GONE
#ifdef XX
int xx_f(int a);
#endif
#ifdef YY
int yy_f(int a);
#endif
typedef struct { int p; char q[4]; struct IncS *n; } Anon;
struct K1 { int a; int b; }; struct K2 { struct K1 k; int c; }; struct K3 { struct K2 *p; float f; Anon an; };
union U1 { int i; struct K1 k; };
enum E1 { E1_B = 2, E1_A = 1, E1_C = 3 }; enum E2 { E2_A };
typedef enum { TE_Q = 3, TE_P = 1 } Te;
typedef int (*cb_t)(struct K1, const char *);
int f1(struct K1 a, struct K2 b); int f2(struct K3 *p, union U1 u); struct K1 f3(Anon *a, enum E1 e); enum E2 f4(cb_t x, int, int);
void f5(const char *fmt, ...) __attribute__((format(printf, 1, 2))) __attribute__((cold));
size_t f6(void *p, size_t n, Te t) __attribute__((warn_unused_result, nonnull(1)));
int f7(int (*cb)(int, struct K2), int[3]); void *f8(struct Undefined *u, struct K3 k); __int128 f9(unsigned __int128 x, long double d);
#endif
"""
G08_CPP = """#ifndef G08_H
#define G08_H
#include "inc.h"
namespace n1 { struct P { int a; }; int g1(int a, P p); namespace n2 { int g2(const char *s); void g3(int &r); } }
namespace n3 { enum class EC { A, B }; int g4(int a); }
class K { public: int m1(int a); void m2(const char *s) const; static int m3(long); private: int m4(); int z; };
class L { public: int l1(int a); bool l2(K &k); };
int free1(K *k, const L &l); unsigned free2(int);
#ifdef XX
int xx_f(int a);
#endif
#ifdef YY
int yy_f(int a);
#endif
#endif
"""


def G08(c):
    gen = embuild.generator()
    runs = [0]
    kinds = {"c": ("h.h", {"h.h": G08_C, "inc.h": G08_INC}, []), "cpp": ("h.h", {"h.h": G08_CPP, "inc.h": G08_INC}, ["--mock-cpp"])}
    # groups of arguments whose order among themselves must not matter
    lists = {
        "c": {"none": [], "only": [["--mock-only", x] for x in ("f1", "f4", "f2", "inc_f", "nosuch")], "ign": [["--ignore-generation-of", x] for x in ("f1", "f6", "f3", "inc_g", "nosuch")],
              "field": [["--ignore-field-generation-of", x] for x in ("K1", "K2", "U1", "IncS", "nosuch")], "cmp": [["--generate-comparator-of", x] for x in ("K1", "K2", "K3", "IncS", "nosuch")],
              "cmpall": [["--generate-comparator-of", x] for x in ("EasyMock_all_comparators", "K1", "U1", "nosuch")],
              "attr": [["--generate-attribute", x] for x in ("format", "cold", "warn_unused_result", "nonnull", "nosuch")], "def": [["-DXX"], ["-w"], ["--ignore-parser-error"], ["--ignore-generation-of", "f2"], ["--mock-only", "f1"]],
              "mix": [["--generate-types"], ["--generate-included-functions"], ["--ignore-generation-of", "f2"], ["--generate-comparator-of", "K1"], ["-DXX"]],
              "mix2": [["--mock-only", "f1"], ["--generate-types"], ["--ignore-field-generation-of", "K2"], ["-DYY"], ["--ignore-parser-error"]]},
        "cpp": {"none": [], "only": [["--mock-only", x] for x in ("g1", "m1", "g4", "free1", "nosuch")], "ign": [["--ignore-generation-of", x] for x in ("g2", "m3", "l1", "nosuch")],
                "mix": [["--generate-included-functions"], ["--ignore-generation-of", "g2"], ["-DXX"], ["--mock-only", "g4"]]},
    }
    def one(job):
        kind, name, args, env, pre, cwd, stale = job
        h, files, base = kinds[kind]
        d = tempfile.mkdtemp(dir=c.work)
        try:
            # the header always has the same path: it is shown in comments of the generated files
            o = d + "/o"
            os.makedirs(o)
            for n, x in stale.items():
                write(o + "/" + n, x)
            src = c.work + "/src_" + kind
            cmd = [gen, "-i", src + "/h.h", "-o", o] + base
            if name.startswith("front"):
                cmd = [gen] + args + base + ["-o", o, "-i", src + "/h.h"]
            elif name.startswith("mid"):
                cmd = [gen, "-o", o] + args + ["-i", src + "/h.h"] + base
            else:
                cmd += args
            e = dict(os.environ)
            for k, v in env.items():
                e[k] = v
                if v is None:
                    e.pop(k)
            if pre:
                cmd = ["sh", "-c", pre + '; exec "$0" "$@"'] + cmd
            rc, out = sh(cmd, env=e, cwd=cwd)
            with c.lock:
                runs[0] += 1
            if rc != 0:
                return job, "exit %s: %s" % (rc, out[-300:])
            r = outputs(o)
            for n in stale:
                if n not in ("easyMock_h.h", "easyMock_h.c" if kind == "c" else "easyMock_h.cpp") and r.get(n) == stale[n]:
                    r.pop(n)
            return job, r
        finally:
            shutil.rmtree(d, True)
    for kind, (h, files, base) in kinds.items():
        for n, x in files.items():
            write(c.work + "/src_%s/%s" % (kind, n), x)
    jobs, refs = [], {}
    maxperm = 4 if c.quick else 5
    modes = [[], ["--generate-types"]]
    for kind in kinds:
        for ln, l in lists[kind].items():
            for mode in (modes if kind == "c" and not ln.startswith("mix") else [[]]):
                g = (kind, ln, tuple(mode))
                perms = list(itertools.permutations(l[:maxperm])) if l else [()]
                for pn, p in enumerate(perms):
                    for place in ("tail",) if pn % 3 else ("tail", "front", "mid"):
                        args = mode + [y for x in p for y in x]
                        if pn % 2:
                            args = [y for x in p for y in x] + mode
                        jobs.append((g, (kind, place, args, {}, None, None, {})))
                # a list option given twice
                if l and ln not in ("def", "mix", "mix2"):
                    jobs.append((g, (kind, "tail", mode + [y for x in l[:maxperm] + l[:maxperm] for y in (x if ln not in ("mix", "mix2") else x)], {}, None, None, {})))
    envs = [{"LC_ALL": v, "LANG": v} for v in ("C", "C.UTF-8", "de_DE.UTF-8", "tr_TR.UTF-8", "nonsense")] + [{"LC_ALL": None, "LANG": None}, {"HOME": "/nonexistent"}, {"HOME": None}, {"TMPDIR": "/nonexistent"}, {"PATH": ""}, {"PATH": None},
            {"TZ": "Asia/Tokyo"}, {"TERM": "xterm"}, {"COLUMNS": "20"}, {"USER": "x"}, {"SOURCE_DATE_EPOCH": "1"}, {"CPATH": "/nonexistent"}, {"MALLOC_PERTURB_": "165"}, {"MALLOC_PERTURB_": "90"}, {"MALLOC_ARENA_MAX": "1"},
            {"MALLOC_TOP_PAD_": "1"}, {"MALLOC_MMAP_THRESHOLD_": "64"}, {"MALLOC_TRIM_THRESHOLD_": "0"}, {"GLIBC_TUNABLES": "glibc.malloc.tcache_count=0"}, {"EASYMOCK": "1"}, {"PWD": "/"}]
    pads = range(0, 4096, 512 if c.quick else 64)
    envs += [{"PAD": "x" * n} for n in pads]
    pres = ["umask 0", "umask 077", "ulimit -s 2048", "ulimit -s unlimited", "ulimit -n 40", "exec </dev/null", "nice -n 5 true", "cd /", "cd /tmp", "exec 3</dev/null 4</dev/null 5</dev/null"]
    stale = [{"easyMock_h.h": "x" * 300000, "easyMock_h.c": "y" * 300000, "easyMock_h.cpp": "z" * 300000}, {"easyMock_h.h": ""}, {"other.h": "q"}]
    full = {"c": [[], ["--generate-types", "--generate-included-functions", "--generate-comparator-of", "K1", "--generate-comparator-of", "K2", "--generate-attribute", "format", "-DXX"]],
            "cpp": [[], ["--generate-included-functions", "-DXX"]]}
    for kind in kinds:
        for k, args in enumerate(full[kind]):
            g = (kind, "env%d" % k)
            for e in envs:
                jobs.append((g, (kind, "tail", args, e, None, None, {})))
            for p in pres:
                jobs.append((g, (kind, "tail", args, {}, p, None, {})))
            for s in stale:
                jobs.append((g, (kind, "tail", args, {}, None, None, s)))
            for w in ("/", c.work, "/usr"):
                jobs.append((g, (kind, "tail", args, {}, None, w, {})))
            # the address layout differs in every run; with and without randomisation
            for rep in range(20 if c.quick else 200):
                jobs.append((g, (kind, "tail", args, {}, None, None, {})))
            if shutil.which("setarch") and sh(["setarch", "-R", "true"])[0] == 0:
                for pre in ("setarch -R true", ):
                    jobs.append((g, (kind, "tail", args, {}, 'set -- setarch -R "$0" "$@"; gen="$1"; shift; exec "$gen" "$@"', None, {})))
    res = pmap(lambda j: (j[0], one(j[1])), jobs)
    for g, (job, out) in res:
        key = "%s:%s:%s" % (":".join(map(str, g)).replace(" ", ""), job[1], "".join(job[2]) + str(job[3])[:60] + str(job[4] or "") + str(job[5] or "") + str(sorted(job[6])))
        key = key.replace(" ", "_")
        if isinstance(out, str):
            c.violation("run:" + key, "args %s env %s %s cwd %s: %s" % (" ".join(job[2]), str(job[3])[:80], job[4], job[5], out), kinds[job[0]][1])
            continue
        if g not in refs:
            refs[g] = (job, out)
            if len(out) != 2:
                c.violation("files:" + key, "files %s" % sorted(out), kinds[job[0]][1])
            continue
        r = refs[g][1]
        if out != r:
            n = next(x for x in sorted(set(out) | set(r)) if out.get(x) != r.get(x))
            a, b = (r.get(n) or "").splitlines(), (out.get(n) or "").splitlines()
            k = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
            c.violation("differs:" + key, "%s differs in line %d between '%s' (env %s %s) and '%s' (env %s %s cwd %s): '%s' <> '%s'" % (
                n, k + 1, " ".join(refs[g][0][2]), str(refs[g][0][3])[:60], refs[g][0][4], " ".join(job[2]), str(job[3])[:60], job[4], job[5], a[k] if k < len(a) else None, b[k] if k < len(b) else None), kinds[job[0]][1])
    c.add(states=len(refs), transitions=runs[0], traces_validated_against_impl=runs[0], groups=len(refs))
    for j in jobs[:: max(1, len(jobs) // 10)]:
        c.sample("%s | %s | env %s | %s" % (":".join(map(str, j[0])), " ".join(j[1][2]), str(j[1][3])[:50], j[1][4]))
    c.assumptions += ["memory addresses vary with the address space randomisation, stack size and allocator settings of the runs"]


# ---------------------------------------------------------------- G09
# name -> (text, functions following in the same file are still declared correctly)
ERRORS = {
    "unknown_param": ("int bad(Unknown x);", True),
    "unknown_ret": ("Unknown bad(int x);", True),
    "unknown_field": ("struct BadS { Unknown x; };", True),
    "hash_error": ("#error told you", True),
    "missing_include": ('#include "does_not_exist.h"', True),
    "missing_sysinclude": ("#include <does_not_exist_sys.h>", True),
    "stray_brace": ("}", True),
    "stray_endif": ("#endif", True),
    "stray_else": ("#else", False),
    "bad_directive": ("#nonsense", True),
    "conflict": ("int dup(int); char dup(int);", True),
    "redef_struct": ("struct Dd { int a; }; struct Dd { int a; };", True),
    "redef_enum": ("enum Ee { EeA }; enum Ef { EeA };", True),
    "static_assert": ('_Static_assert(0, "no");', True),
    "bad_array": ("int bad(int a[-1]);", True),
    "two_commas": ("int tc(int a,, int b);", True),
    "bad_expr": ("enum { Bad = 1 / 0 };", True),
    "incomplete_value": ("struct Never gone; struct HasInc { struct Never n; };", True),
    "void_param": ("int bad(void, int);", True),
    "bad_token": ("int @bad;", True),
    "unterminated_if": ("#if 1", "end"),
    "open_struct": ("struct Open { int a;", "swallow"),
    "open_paren": ("int open_paren(int a", "swallow"),
    "unterminated_comment": ("/* never closed", "swallow"),
    "unterminated_string": ('int us = "abc;', "swallow"),
    "many_errors": ("\n".join("int bad%d(Unknown%d x);" % (i, i) for i in range(40)), True),
    "goto_body": ("static inline void gb(void) { goto nowhere; }", True),
    "undeclared": ("static inline int ud(void) { return not_declared; }", True),
}
WARNS = {
    "hash_warning": "#warning told you",
    "redef_macro": "#define RM 1\n#define RM 2",
    "unknown_attr": "int ua(int x) __attribute__((totally_unknown));",
    "unknown_pragma": "#pragma nonsense here",
    "extra_tokens": "#ifdef NOT_THERE\n#endif extra",
    "implicit_fun": "static inline int imf(void) { return not_yet(); }",
    "implicit_int": "imp_int(int a);",
    "int_conv": "static inline int *ic(void) { return 5; }",
    "unused": "static int unu = 3; static int unf(int a);",
    "empty_decl": "int;",
    "dup_const": "int dc(const const int x);",
    "shift": "enum { Sh = 1 << 31 };",
    "no_proto": "int np();",
    "visible": "int vis(struct OnlyHere *p);",
    "pragma_once": "#pragma once",
    "deprecated": "typedef int Dt __attribute__((deprecated)); int dep(Dt x);",
    "trigraph": "/* ??/ */",
    "nested_comment": "/* /* */",
    "div0": "static inline int dz(void) { return 1 / 0; }",
    "fmt": "int printf(const char *, ...); static inline void fm(void) { printf(\"%s\", 3); }",
    "extra_semi": ";;;",
    "bidi": "/* \u202e */",
    "inactive_error": "#if 0\n#error no\nint @@@;\n#include \"nofile.h\"\n#endif",
    "comment_error": "// int bad(Unknown x);\n/* #error */",
    "macro_error": "#define NEVER_USED @@@ (",
    "include_next": "#include <limits.h>",
    "has_include": "#if __has_include(\"nofile.h\")\n#include \"nofile.h\"\n#endif",
}
GOOD = ["int good0(int a);", "struct Good { int x; char y[3]; };", "struct Good *good1(struct Good g, const char *s);", "void good2(void);", "long good3(enum GoodE { GA, GB } e);"]


def G09(c):
    gen = embuild.generator()
    runs = [0]

    def layout(d, items, where, pos):
        """the items are put before the pos-th good declaration of the header or of the included header"""
        main, inc = list(GOOD[:]), ["typedef int IncT;", "int goodi(IncT a);", "int goodj(struct IncFwd *p);"]
        main.insert(0, '#include "inc.h"')
        tgt = main if where == "main" else inc
        tgt[pos:pos] = items
        fin = lambda l, g: "#ifndef %s\n#define %s\n%s\n#endif\n" % (g, g, "\n".join(l))
        # the guards stay out of the way of unbalanced conditionals
        write(d + "/h.h", "\n".join(main) + "\n")
        write(d + "/inc.h", "\n".join(inc) + "\n")
        return {"h.h": open(d + "/h.h").read(), "inc.h": open(d + "/inc.h").read()}

    def parts(o):
        r = {}
        for n in ("easyMock_h.h", "easyMock_h.c"):
            t = re.sub(r"\s+", " ", re.sub(r"^\s*#.*$", "", strip_comments(open(o + "/" + n).read()), flags=re.M))
            for f in ("good0", "good1", "good2", "good3", "goodi", "goodj"):
                for m in re.finditer(r"[;{}] ([^;{}]*\b%s(?:_\w+)?\([^;{}]*)[;{]" % f, t):
                    r.setdefault(f, set()).add(re.sub(r"__easymock_param\d+", "P", m.group(1)).strip())
        return r

    def one(job):
        name, items, where, pos, ign, extra, stale = job
        d = tempfile.mkdtemp(dir=c.work)
        files = layout(d, items, where, pos)
        o = d + "/o"
        os.makedirs(o)
        if stale:
            write(o + "/easyMock_h.h", "old h")
            write(o + "/easyMock_h.c", "old c")
        args = (["--ignore-parser-error"] if ign else []) + extra
        rc, out = sh([gen, "-i", d + "/h.h", "-o", o] + args)
        with c.lock:
            runs[0] += 1
        fs = {n: open(o + "/" + n).read() for n in sorted(os.listdir(o))}
        p = parts(o) if "easyMock_h.h" in fs and "easyMock_h.c" in fs and not (stale and fs["easyMock_h.h"] == "old h") else {}
        shutil.rmtree(d, True)
        return job, rc, out, fs, p, files

    extras = [[], ["--generate-types"], ["--generate-included-functions"]]
    if not c.quick:
        extras += [["--generate-types", "--generate-included-functions"], ["-w"], ["-Wall", "-Wextra"], ["--mock-only", "good1"], ["-DX=1"]]
    ref = {}
    for e in extras:
        job, rc, out, fs, p, files = one(("ref", [], "main", 0, False, e, False))
        if rc != 0 or set(fs) != {"easyMock_h.c", "easyMock_h.h"}:
            c.violation("plain:" + "".join(e), "a header without errors is refused: exit %s %s" % (rc, out[-300:]), files)
            return
        ref[tuple(e)] = p
    jobs = []
    npos = {"main": len(GOOD) + 2, "inc": 4}
    for e in extras:
        for name, (text, cont) in ERRORS.items():
            for where in ("main", "inc"):
                for pos in range(npos[where]):
                    for ign in (False, True):
                        for stale in ((False, True) if not ign else (False,)):
                            jobs.append((name, [text], where, pos, ign, e, stale))
        for name, text in WARNS.items():
            for where in ("main", "inc"):
                for pos in range(npos[where]):
                    if name in ("pragma_once", ) and where == "inc" and False:
                        continue
                    for ign in (False, True):
                        jobs.append((name, [text], where, pos, ign, e, False))
    # two things at once
    pe = list(ERRORS) if not c.quick else ["unknown_param", "hash_error", "missing_include", "stray_brace", "conflict", "bad_token"]
    pw = list(WARNS) if not c.quick else ["hash_warning", "redef_macro", "implicit_fun", "int_conv", "no_proto"]
    two = [(a, b) for a in pe for b in pe + pw if a != b] + [(b, a) for a in pe for b in pw]
    # forms that close or hide one another
    two = [(a, b) for a, b in two if a not in ("unterminated_comment", "unterminated_if") or ERRORS.get(b, (0, 0))[1] is True and b not in ("stray_endif",)]
    txt = lambda n: ERRORS[n][0] if n in ERRORS else WARNS[n]
    for a, b in two:
        for ign in (False, True):
            jobs.append((a + "+" + b, [txt(a), txt(b)], "main", 3, ign, [], False))
    wtwo = [(a, b) for a in pw for b in pw if a != b]
    for a, b in wtwo:
        jobs.append((a + "+" + b, [txt(a), txt(b)], "main", 2, False, [], False))
    # warnings asked for never refuse the header
    for name, text in WARNS.items():
        for w in (["-Wall"], ["-Weverything"], ["-pedantic"]):
            jobs.append((name, [text], "main", 2, False, w, False))
    for e in (["-Wall"], ["-Weverything"], ["-pedantic"]):
        ref[tuple(e)] = one(("ref", [], "main", 0, False, e, False))[4]
    # compiler errors outside of the header
    argerrs = [["-DB=)", "-include", "nofile.h"], ["-include", "nofile_at_all.h"], ["-Derror", "-Dint=Unknown"]]
    for e in argerrs:
        job, rc, out, fs, p, files = one(("args", [], "main", 0, False, e, False))
        if rc == 0 or fs:
            c.violation("args:" + "".join(e), "exit %s, files %s, with the unusable arguments %s" % (rc, sorted(fs), " ".join(e)), files)
    for (name, items, where, pos, ign, e, stale), rc, out, fs, p, files in pmap(one, jobs):
        names = name.split("+")
        iserr = any(n in ERRORS for n in names)
        key = "%s:%s:%d:%d:%s%s" % (name, where, pos, ign, "".join(e), ":stale" if stale else "")
        what = "%s (%s) before declaration %d of %s, %s %s" % (name, "; ".join(items)[:80].replace("\n", " | "), pos, where, " ".join(e), "with --ignore-parser-error" if ign else "")
        old = {"easyMock_h.h": "old h", "easyMock_h.c": "old c"} if stale else {}
        if iserr and not ign:
            if not isinstance(rc, int) or rc <= 0:
                c.violation("accepted:" + key, "%s: exit %s instead of a refusal" % (what, rc), files)
            elif fs != old:
                c.violation("written:" + key, "%s: refused but wrote %s" % (what, [n for n in fs if fs[n] != old.get(n)]), files)
            continue
        if rc != 0:
            c.violation("refused:" + key, "%s: exit %s: %s" % (what, rc, out[-300:]), files)
            continue
        if set(fs) != {"easyMock_h.c", "easyMock_h.h"}:
            c.violation("files:" + key, "%s: files %s" % (what, sorted(fs)), files)
            continue
        want = dict(ref[tuple(e)])
        if iserr:
            # what the error swallows is not declared correctly
            conts = [ERRORS[n][1] for n in names if n in ERRORS]
            if len(names) > 1 and any(x is not True for x in conts):
                continue
            x = conts[0] if len(names) == 1 else True
            if x is not True:
                if where == "inc":
                    want = {} if x in ("swallow",) or x is False else want
                    if x is False:
                        want = {}
                else:
                    before = " ".join(GOOD[:max(0, pos - 1)]) if x != "end" else " ".join(GOOD)
                    want = {f: s for f, s in want.items() if (f in ("goodi", "goodj") and (pos > 0 or x == "end")) or re.search(r"\b%s\(" % f, before)}
        for f, s in want.items():
            if p.get(f) != s:
                c.violation("differs:" + key + ":" + f, "%s: the mock of %s is %s instead of %s" % (what, f, sorted(p.get(f, []))[:3], sorted(s)[:3]), files)
                break
        if not iserr and set(p) != set(want):
            c.violation("set:" + key, "%s: mocks %s instead of %s" % (what, sorted(p), sorted(want)), files)
    c.add(states=len(jobs), transitions=runs[0], traces_validated_against_impl=runs[0], error_forms=len(ERRORS), warning_forms=len(WARNS))
    for j in jobs[:: max(1, len(jobs) // 10)]:
        c.sample("%s in %s before %d, ignore=%s, %s" % (j[0], j[2], j[3], j[4], " ".join(j[5])))
    c.assumptions += ["a function is declared correctly when clang's error recovery is not needed to read it"]
