"""G04: the types declared by a mock generated with --generate-types are those of the original header."""
import itertools
import embuild
from emcheck import *

# @ is the number of the case, % the name of the member
PRELUDE = """struct GS { int a; char b[5]; long long c; };
struct GFwd;
union GU { long long i; double d; char c[8]; };
enum GE { GE_A, GE_B = 5, GE_C };
typedef int GTi; typedef unsigned char GTuc; typedef double GTd; typedef struct GS GTs; typedef struct { short u; long v; } GTas;
typedef union { int k; float f; } GTau; typedef enum GE GTe; typedef enum { GTE_A, GTE_B = 9 } GTae; typedef const char *GTpcc; typedef void *GTpv;
typedef int GTarr[4]; typedef int (*GTfp)(int, char); typedef GTi GTti; typedef struct GFwd GTfwd; typedef GTas *GTpas; typedef _Bool GTb; typedef const int GTci;
typedef struct GN { char x; struct GN *next; } GTn; typedef struct GOp *GTop; typedef unsigned long long GTull; typedef GTas GTtas; typedef GTarr GTarr2[2];
"""


class M:
    """a member: text, and what can be observed of it: objects (o), bit-fields (b)"""
    def __init__(self, key, text, obs=None, pre="", last=False):
        self.key, self.text, self.pre, self.last = key, text, pre, last
        self.obs = obs if obs is not None else [("o", "%")]


def O(*names):
    return [("o", n) for n in names]


BASICS = ["char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned", "long", "unsigned long", "long long", "unsigned long long",
          "float", "double", "long double", "_Bool", "__int128", "unsigned __int128"]
NAMES = ["struct GS", "union GU", "enum GE", "GTi", "GTuc", "GTd", "GTs", "GTas", "GTau", "GTe", "GTae", "GTpcc", "GTpv", "GTarr", "GTfp", "GTti", "GTpas", "GTb", "GTn", "GTop", "GTull", "GTtas", "GTarr2"]
MEMBERS = [M(t, t + " %") for t in BASICS + NAMES]
MEMBERS += [M("const int", "const int %"), M("volatile int", "volatile int %"), M("GTci", "GTci %"), M("const struct GS", "const struct GS %")]
MEMBERS += [M(t + " *", t + " *%") for t in ["int", "const char", "void", "struct GS", "struct GFwd", "GTfwd", "GTas", "enum GE", "GTe", "GTfp", "char *", "const char *const ", "struct GFwd *", "volatile unsigned", "GTtas", "GTn", "union GU", "const GTas"]]
MEMBERS += [M("int *const", "int *const %"), M("int *volatile", "int *volatile %")]
MEMBERS += [M(t + "[]", t + " %[3]", O("%", "%[1]")) for t in ["char", "int", "short", "double", "struct GS", "GTas", "union GU", "enum GE", "GTi", "GTae", "_Bool", "long double", "const int", "GTn", "GTpcc", "GTop", "GTfp"]]
MEMBERS += [M("one element", "int %[1]", O("%", "%[0]")), M("array of pointers", "int *%[2]", O("%", "%[1]")), M("array of pointers to struct", "struct GFwd *%[2]", O("%", "%[1]")), M("array size expression", "char %[sizeof(int) * 2 + 1]"),
            M("array size enum", "char %[GE_C]"), M("array size macro", "char %[SZ@]", pre="#define SZ@ (3 + 4)\n"),
            M("array of arrays", "int %[2][3]", O("%", "%[1]", "%[1][2]")), M("array of arrays of struct", "struct GS %[2][3]", O("%", "%[1]", "%[1][2]")), M("array of arrays of arrays", "char %[2][3][4]", O("%", "%[1]", "%[1][2]", "%[1][2][3]")),
            M("array of typedef of array", "GTarr %[2]", O("%", "%[1]", "%[1][3]")), M("array of arrays of pointers", "char *%[2][2]", O("%", "%[1]", "%[1][1]")), M("array of arrays of anonymous", "struct { char p; int q; } %[2][2]", O("%", "%[1]", "%[1][1].q"))]
MEMBERS += [M("function pointer", "int (*%)(int)"), M("function pointer void", "void (*%)(void)"), M("function pointer struct", "struct GS (*%)(struct GS a, const GTas *b, enum GE)"), M("function pointer variadic", "int (*%)(const char *, ...)"),
            M("function pointer self", "void (*%)(struct T@ *me)"), M("function pointer forward", "struct GFwd *(*%)(struct GFwd *a, GTop)"), M("function pointer callback", "void (*%)(int (*cb)(void *), void *)"),
            M("const function pointer", "int (*const %)(int)"), M("array of function pointers", "int (*%[2])(int)", O("%", "%[1]")), M("pointer to function pointer", "int (**%)(int)"), M("pointer to array", "int (*%)[3]"),
            M("function pointer returning function pointer", "int (*(*%)(char))(int)")]
MEMBERS += [M("bit " + t + ":%d" % n, t + " %:" + str(n), [("b", "%")]) for t, ns in (("int", (1, 3, 31, 32)), ("unsigned", (1, 7, 32)), ("_Bool", (1,)), ("unsigned long long", (40, 64)), ("long", (33,)), ("char", (2,)), ("unsigned char", (8,)), ("short", (9,)),
            ("GTi", (5,)), ("GTuc", (3,)), ("enum GE", (4,)), ("GTe", (4,)), ("GTae", (6,)), ("GTull", (50,)), ("const int", (4,)), ("GTti", (6,)), ("GTb", (1,)), ("signed int", (6,)), ("volatile int", (7,))) for n in ns]
MEMBERS += [M("bit gap", "int :5", []), M("bit unit end", "int :0", []), M("bit unit end char", "char :0", []), M("bits after gap", "unsigned %:3; unsigned :5; unsigned %2:4", [("b", "%"), ("b", "%2")]), M("bits", "int %:4, %2:5", [("b", "%"), ("b", "%2")]),
            M("bits new unit", "unsigned char %:3; unsigned char :0; unsigned char %2:2", [("b", "%"), ("b", "%2")])]
MEMBERS += [M("nested named", "struct N@_% { int a; char b; } %", O("%", "%.a", "%.b")), M("nested anonymous", "struct { char a; long b; } %", O("%", "%.a", "%.b")), M("unnamed struct", "struct { char %a; int %b; }", O("%a", "%b")),
            M("unnamed union", "union { int %a; float %b; char %c[4]; }", O("%a", "%b", "%c")), M("nested union", "union { short a; struct { char b; int c; } d; } %", O("%", "%.a", "%.d", "%.d.c")),
            M("unnamed in unnamed", "union { struct { char %a; short %b; }; long %c; }", O("%a", "%b", "%c")), M("array of anonymous", "struct { char a; int b; } %[2]", O("%", "%[1]", "%[1].b")), M("array of named", "struct N@_% { char a; int b; } %[2]", O("%", "%[1]", "%[1].b")),
            M("nested bits", "struct { int a:3; unsigned b:5; } %", [("o", "%"), ("b", "%.a"), ("b", "%.b")]), M("unnamed bits", "struct { int %a:3; unsigned %b:5; }", [("b", "%a"), ("b", "%b")]),
            M("nested enum", "enum N@_% { NA@_%, NB@_% = 4 } %", O("%") + [("e", "NA@_%"), ("e", "NB@_%")]), M("anonymous enum", "enum { NA@_%, NB@_% = 7 } %", O("%") + [("e", "NA@_%"), ("e", "NB@_%")]),
            M("pointer to nested named", "struct N@_% { int a; char b; } *%", O("%", "%->b")), M("pointer to anonymous", "struct { int a; char b; } *%", O("%", "%->b")), M("pointer to anonymous union", "union { int a; char b; } *%", O("%", "%->b")),
            M("nested named used twice", "struct N@_% { int a; char b; } %; struct N@_% *%p", O("%", "%.b", "%p", "%p->b")), M("deeply nested", "struct { struct { union { char a; short b; } c; int d; } e; char f; } %", O("%", "%.e", "%.e.c.b", "%.e.d", "%.f")),
            M("array of enum anonymous", "enum { NA@_% = 3 } %[2]", O("%", "%[1]") + [("e", "NA@_%")]), M("two anonymous of one form", "struct { int a; } %; struct { int a; } %2", O("%", "%2", "%.a", "%2.a"))]
MEMBERS += [M("self", "struct T@ *%"), M("pointer typedef of anonymous", "L@_% %", O("%", "%->y"), pre="typedef struct { char x; int y; } *L@_%;\n"), M("pointer typedef of anonymous enum", "L@_% %", O("%") + [("e", "LB@_%")], pre="typedef enum { LA@_%, LB@_% = 4 } *L@_%;\n"),
            M("pointer pointer typedef of anonymous", "L@_% %", O("%"), pre="typedef union { char x; int y; } **L@_%;\n"), M("typedef chain", "L@_%c %", O("%", "%->y"), pre="typedef struct { char x; int y; } L@_%; typedef L@_% *L@_%b; typedef const L@_%b L@_%c;\n"),
            M("typedef named struct of other tag", "L@_% %", O("%", "%.z"), pre="struct L@_% { char x; int y; }; typedef struct { double z; } L@_%;\n"), M("both of one name", "L@_% %; struct L@_% *%p", O("%", "%.z", "%p", "%p->y"), pre="struct L@_% { char x; int y; }; typedef struct { double z; } L@_%;\n"),
            M("const pointer typedef", "L@_% %", O("%", "%->z"), pre="typedef struct L@_%s { double z; } L@_%s; typedef const L@_%s *const L@_%;\n"), M("function typedef pointer", "L@_% *%", O("%"), pre="typedef int L@_%(struct GFwd *, GTas *);\n"),
            M("function pointer typedef of typedefs", "L@_% %", O("%"), pre="typedef GTas *L@_%p; typedef L@_%p (*L@_%)(L@_%p a, GTe);\n"),
            M("array of self", "struct T@ *%[2]", O("%", "%[1]")), M("const self", "const struct T@ *%"), M("two declarators", "int %, *%2, %3[2]", O("%", "%2", "%3", "%3[1]")), M("struct declarators", "struct GS %, *%2", O("%", "%2", "%.c")),
            M("flexible", "char %[]", [("of", "%")], last=True), M("flexible struct", "struct GS %[]", [("of", "%")], last=True), M("zero array", "int %[0]", [("of", "%")], last=True),
            M("aligned", "char % __attribute__((aligned(16)))"), M("packed member", "int % __attribute__((packed))"), M("_Alignas", "_Alignas(8) char %"), M("atomic", "_Atomic int %"), M("typedef spelled by macro", "MT@ %", pre="#define MT@ unsigned short\n"),
            M("packed local enum", "enum L@_% %", O("%") + [("e", "LA@_%")], pre="enum __attribute__((packed)) L@_% { LA@_% = 3, LB@_% = 200 };\n"), M("packed local struct", "struct L@_% %", O("%", "%.y"), pre="struct L@_% { char x; int y; } __attribute__((packed));\n"),
            M("packed local typedef", "L@_% %", O("%", "%.y"), pre="typedef struct __attribute__((packed)) { char x; long y; } L@_%;\n"), M("aligned local struct", "struct L@_% %", O("%", "%.y"), pre="struct L@_% { char x; int y; } __attribute__((aligned(32)));\n"),
            M("packed anonymous", "struct { char a; int b; } __attribute__((packed)) %", O("%", "%.a", "%.b")), M("unnamed packed", "struct { char %a; int %b; } __attribute__((packed))", O("%a", "%b")), M("aligned array", "short %[3] __attribute__((aligned(8)))", O("%", "%[1]")),
            M("aligned bit", "int %:3 __attribute__((aligned(8)))", [("b", "%")]), M("packed bit", "unsigned long long %:40 __attribute__((packed))", [("b", "%")]), M("pragma pack", "struct L@_% %", O("%", "%.y", "%.z"), pre="#pragma pack(push, 2)\nstruct L@_% { char x; int y; long long z; };\n#pragma pack(pop)\n"),
            M("pragma pack 1", "L@_% %", O("%", "%.y", "%.z"), pre="#pragma pack(1)\ntypedef struct { char x; int y; short z; } L@_%;\n#pragma pack()\n"), M("pointer to typedef of array", "GTarr *%"), M("pointer to array of pointers", "char *(*%)[2]"), M("pointer to array of struct", "struct GS (*%)[3]"),
            M("array of pointers to array", "int (*%[2])[3]", O("%", "%[1]")), M("const array of arrays", "const char %[2][3]", O("%", "%[1]", "%[1][1]")), M("typeof", "__typeof__(int *) %"), M("typeof typedef", "__typeof__(GTi) %[2]", O("%", "%[1]")),
            M("array of enum pointers", "enum GE *%[2]", O("%", "%[1]")), M("zero array inside", "int %[0]", [("of", "%")]), M("complex size", "unsigned char %[(3 > 2) ? 4 : 5]", O("%", "%[1]")), M("atomic pointer", "int *_Atomic %"), M("atomic qualified", "_Atomic(short) %"),
            M("local struct", "struct L@_% %", O("%", "%.y"), pre="struct L@_% { char x; int y; };\n"), M("later struct", "struct L@_% *%", O("%"), pre="struct L@_%;\n"), M("local typedef", "L@_% %", O("%", "%.y"), pre="typedef struct { char x; int y; } L@_%;\n"),
            M("local union typedef", "L@_% %", O("%", "%.y"), pre="typedef union L@_%u { char x; int y; } L@_%;\n"), M("typedef of nested", "L@_% *%", O("%", "%->z.y"), pre="typedef struct L@_%s { struct { char x; int y; } z; } L@_%;\n"), M("local enum", "enum L@_% %", O("%") + [("e", "LA@_%")], pre="enum L@_% { LA@_% = -2 };\n")]
SMALL = ["char", "unsigned long long", "double", "struct GS", "GTas", "GTe", "void *", "char[]", "struct GS[]", "function pointer", "bit int:3", "bit unsigned:7", "bit _Bool:1", "nested named", "nested anonymous", "unnamed struct", "unnamed union", "nested enum", "self", "local typedef", "GTarr", "short", "bit gap", "bit unit end"]


class Case:
    def __init__(self, key, text, fns, tname=None, obs=(), enums=()):
        self.key, self.text, self.fns, self.tname, self.obs, self.enums = key.replace(" ", "_"), text, fns, tname, list(obs), list(enums)

    def at(self, n):
        r = lambda s: s.replace("@", str(n))
        return Case(self.key, r(self.text), [r(f) for f in self.fns], self.tname and r(self.tname), [(k, r(o)) for k, o in self.obs], [r(e) for e in self.enums])


def composite(ms, kw="struct", form="tag", use="ptr", attr=""):
    """a case: a struct or union with these members"""
    pre, body, obs = "", "", []
    for j, m in enumerate(ms):
        n = "m%d" % j
        pre += m.pre.replace("%", n)
        body += "  " + m.text.replace("%", n).replace("struct T@", kw + " T@") + ";\n"
        obs += [(k, o.replace("%", n)) for k, o in m.obs]
    tag = "" if form == "anon" else "T@ "
    t = {"tag": "%s T@" % kw, "anon": "T@_t", "both": "T@_t", "bothtag": "%s T@" % kw, "same": "T@", "sametag": "%s T@" % kw, "ahead": "T@_t"}[form]
    a = " __attribute__((%s))" % attr if attr else ""
    text = pre + ("%s %s{\n%s}%s;\n" % (kw, tag, body, a) if form == "tag" else "typedef %s %s{\n%s}%s T@_t;\n" % (kw, tag, body, a))
    if form in ("same", "sametag"):
        text = text.replace("T@_t;\n", "T@;\n")
    if form == "ahead":
        text = "typedef %s T@ T@_t;\n" % kw + pre + "%s T@ {\n%s}%s;\n" % (kw, body, a)
    f = {"ptr": ["int f@(%s *p);" % t], "cptr": ["void f@(const %s *p);" % t], "val": ["int f@(%s p);" % t], "ret": ["%s f@(void);" % t], "rptr": ["%s *f@(int a);" % t], "both": ["%s *f@(%s p);" % (t, t), "%s g@(const %s *const p);" % (t, t)],
         "arr": ["int f@(%s p[2]);" % t], "cb": ["void f@(int (*cb)(%s *, int));" % t], "pp": ["void f@(%s **p);" % t]}[use]
    enums = [o for k, o in obs if k == "e"]
    return Case("%s,%s,%s%s:%s" % (kw, form, use, "," + attr if attr else "", "+".join(m.key for m in ms)), text, f, t, [x for x in obs if x[0] != "e"], enums)


LAYOUT = r"""
#include <stdio.h>
#include <string.h>
#define CL(e) _Generic((e), _Bool: 1, char: 2, signed char: 3, unsigned char: 4, short: 5, unsigned short: 6, int: 7, unsigned: 8, long: 9, unsigned long: 10, long long: 11, unsigned long long: 12, float: 13, double: 14, long double: 15, \
 char *: 16, const char *: 17, void *: 18, int *: 19, const void *: 20, __int128: 21, unsigned __int128: 22, default: 99)
#define OBJ(T, m) do { static T v; printf(" " #m "@%lu+%lu/%lu,%d.%d", (unsigned long)((const volatile char *)&v.m - (const volatile char *)&v), (unsigned long)sizeof(v.m), (unsigned long)__alignof__(v.m), __builtin_classify_type(v.m), CL(v.m)); } while(0)
#define FLX(T, m) do { static T v; printf(" " #m "@%lu+%lu", (unsigned long)((const volatile char *)v.m - (const volatile char *)&v), (unsigned long)sizeof(v.m[0])); } while(0)
#define BIT(T, m) do { T v; unsigned i; memset(&v, 0, sizeof v); printf(" " #m "="); ASGN(v, m, -1) for(i = 0; i < sizeof v; i++) if(((unsigned char *)&v)[i]) printf("%u:%02x.", i, ((unsigned char *)&v)[i]); printf("%s", v.m < 0 ? "s" : "u"); } while(0)
"""


def has_const_bit(c):
    return "const int" in c.key and "bit_const" in c.key


def layout_src(cases):
    o = [LAYOUT]
    for i, c in enumerate(cases):
        o.append("static void t%d(void) { printf(\"%d:\");\n" % (i, i))
        if c.tname:
            o.append("  printf(\" size %%lu align %%lu\", (unsigned long)sizeof(%s), (unsigned long)__alignof__(%s));\n" % (c.tname, c.tname))
        for k, p in c.obs:
            if k == "o" and "->" in p:
                a, b = p.split("->", 1)
                o.append("  { static %s w; OBJ(__typeof__(*w.%s), %s); }\n" % (c.tname, a, b))
            elif k == "o":
                o.append("  OBJ(%s, %s);\n" % (c.tname, p))
            elif k == "of":
                o.append("  FLX(%s, %s);\n" % (c.tname, p))
            elif k == "b":
                # a bit-field that cannot be assigned is set through an initialiser
                if "bit_const" in c.key or "const" in c.key.split(":")[0]:
                    o.append("  { %s v; unsigned i; memset(&v, 0xff, sizeof v); printf(\" %s=%%lld%%s\", (long long)v.%s, v.%s < 0 ? \"s\" : \"u\"); }\n" % (c.tname, p, p, p))
                else:
                    o.append("  { %s v; unsigned i; memset(&v, 0, sizeof v); v.%s = -1; printf(\" %s=\"); for(i = 0; i < sizeof v; i++) if(((unsigned char *)&v)[i]) printf(\"%%u:%%02x.\", i, ((unsigned char *)&v)[i]); printf(\"%%s\", v.%s < 0 ? \"s\" : \"u\"); }\n" % (c.tname, p, p, p))
        for e in c.enums:
            o.append("  printf(\" %s=%%lld/%%lu.%%d\", (long long)%s, (unsigned long)sizeof(%s), (__typeof__(%s))-1 < 0);\n" % (e, e, e, e))
        o.append("  printf(\"\\n\"); }\n")
    o.append("int main(void) {\n" + "".join("  t%d();\n" % i for i in range(len(cases))) + "  return 0; }\n")
    return "".join(o)


class TLab:
    CC = ["gcc", "-std=gnu11", "-w", "-O0", "-g0"]

    def __init__(self, c, gen, prelude=PRELUDE, args=()):
        self.c, self.gen, self.prelude, self.args = c, gen, prelude, list(args)
        self.n = self.headers = self.nobs = self.nfail = 0
        import threading
        self.l = threading.Lock()

    def stage(self, cases, d):
        cs = [c.at(i) for i, c in enumerate(cases)]
        h = "#ifndef H_H\n#define H_H\n%s%s%s\n#endif\n" % (self.prelude, "".join(c.text for c in cs), "\n".join(f for c in cs for f in c.fns))
        write(d + "/h.h", h)
        lay = layout_src(cs)
        write(d + "/l.c", lay)
        # what the original header says
        rc, out = sh(self.CC + ["-include", d + "/h.h", d + "/l.c", "-o", d + "/l0"])
        if rc != 0:
            return "invalid", "\n".join([l for l in out.splitlines() if "error" in l][:3])
        rc0, want = sh([d + "/l0"])
        if len(cases) == 1 and cases[0].enums:
            sh(["clang", "-std=gnu11", "-w", "-include", d + "/h.h", d + "/l.c", "-o", d + "/l2"])
            if sh([d + "/l2"])[1] != want:
                return "invalid", "the compilers disagree about the original"
        if rc0 != 0:
            return "invalid", "layout of the original: %s" % rc0
        rc, out = sh([self.gen, "-i", d + "/h.h", "-o", d + "/o", "--generate-types"] + self.args)
        with self.l:
            self.headers += 1
        if rc != 0:
            return "generate", "exit %s: %s" % (rc, out[-300:])
        # the mock on its own
        rc, out = sh(self.CC + ["-c", "-I" + FWINC, "-I" + d + "/o", d + "/o/easyMock_h.c", "-o", d + "/m.o"])
        if rc != 0:
            return "compile", "\n".join([l.replace(d, "") for l in out.splitlines() if "error" in l][:3])
        if any(c.key.startswith("names:") for c in cases):
            # the mock with the original header declares the functions again: the types agree
            rc, out = sh([self.gen, "-i", d + "/h.h", "-o", d + "/o2"] + self.args) if os.makedirs(d + "/o2") is None else None
            rc, out = sh(self.CC + ["-c", "-I" + d, "-I" + FWINC, d + "/o2/easyMock_h.c", "-o", d + "/m2.o"])
            if rc != 0:
                return "original", "\n".join([l.replace(d, "") for l in out.splitlines() if "error" in l][:3])
        rc, out = sh(["nm", "--defined-only", d + "/m.o"])
        got = set(re.findall(r" T (\w+)_ExpectAndReturn$", out, re.M))
        fn = {re.search(r"(\w+)\((?!\*)", f).group(1) for c in cs for f in c.fns}
        if got != fn:
            return "functions", "mocked %s instead of %s" % (sorted(got - fn), sorted(fn - got))
        rc, out = sh(self.CC + ["-I" + FWINC, "-include", d + "/o/easyMock_h.h", d + "/l.c", "-o", d + "/l1"])
        if rc != 0:
            return "members", "\n".join([l.replace(d, "") for l in out.splitlines() if "error" in l][:3])
        rc, got = sh([d + "/l1"])
        if got != want:
            w, g = want.splitlines(), got.splitlines()
            df = [(a, b) for a, b in zip(w, g) if a != b] or [(want[-200:], got[-200:])]
            x = [(p, q) for p, q in zip(df[0][0].split(), df[0][1].split()) if p != q]
            return "layout", "; ".join("%s in the header, %s in the generated one" % p for p in x[:3]) or str(df[0])
        with self.l:
            self.nobs += sum(len(c.obs) + len(c.enums) + 1 for c in cs)
        return None

    def batch(self, cases):
        with self.l:
            self.n += 1
            d = "%s/t%d" % (self.c.work, self.n)
        os.makedirs(d + "/o")
        try:
            r = self.stage(cases, d)
            if r is None:
                return []
            if len(cases) == 1:
                self.nfail += 1
                return [(cases[0], r, {n: open(d + "/" + n).read() for n in ("h.h", "l.c", "o/easyMock_h.h") if os.path.exists(d + "/" + n)})]
            if self.nfail > 400:
                return [(Case("batch:" + ",".join(x.key for x in cases[:4]), "", []), r, {"h.h": open(d + "/h.h").read()})]
            hh = open(d + "/h.h").read()
        finally:
            shutil.rmtree(d, True)
        m = len(cases) // 2
        return self.batch(cases[:m]) + self.batch(cases[m:]) or [(Case("together:" + ",".join(x.key for x in cases[:6]), "", []), r, {"h.h": hh})]

    def run(self, cases, size=16):
        bad = [x for r in pmap(self.batch, [cases[i:i + size] for i in range(0, len(cases), size)]) for x in r]
        inv = 0
        for case, (stage, text), files in bad:
            if stage == "invalid":
                inv += 1
                if os.environ.get("EM_ALL"):
                    print("INVALID", case.key, text)
                continue
            self.c.violation("%s:%s" % (stage, case.key), text, {k.replace("/", "_"): v for k, v in files.items()})
        return inv


def g04_cases(quick):
    cs = []
    key = {m.key: m for m in MEMBERS}
    i = key["int"]
    for m in MEMBERS:
        for kw in ("struct", "union"):
            if m.last and kw == "union":
                continue
            cs.append(composite([m] if not m.last else [i, m], kw))
            cs.append(composite(([i, m] if m.last else [key["char"], m, key["short"]]), kw, use="val" if not m.last else "ptr"))
    for m in MEMBERS:
        if "struct T@" not in m.text and not m.last:
            cs.append(composite([m, i], form="anon", use="both"))
    for m in MEMBERS:
        cs.append(composite([i, m], form="both", use="rptr"))
    small = [key[k] for k in SMALL]
    for a, b in itertools.product(small, repeat=2):
        cs.append(composite([a, b], use="ptr"))
        if not quick:
            cs.append(composite([a, b], kw="union", use="val"))
            if "struct T@" not in a.text + b.text:
                cs.append(composite([a, b], form="anon", use="ret"))
    for use in ("ptr", "cptr", "val", "ret", "rptr", "both", "arr", "cb", "pp"):
        for form in ("tag", "anon", "both", "bothtag", "same", "sametag", "ahead"):
            for kw in ("struct", "union"):
                for m in (small if not quick else small[::3]):
                    if form == "anon" and "struct T@" in m.text:
                        continue
                    cs.append(composite([m, i], kw, form, use))
    for at in ("packed", "aligned(32)", "packed, aligned(2)"):
        for m in small[:8]:
            cs.append(composite([key["char"], m], attr=at))
    if not quick:
        for t in itertools.product([key[k] for k in ("char", "bit int:3", "bit unsigned:7", "bit _Bool:1", "bit gap", "bit unit end", "short", "unnamed struct", "unnamed union", "nested anonymous", "double")], repeat=3):
            cs.append(composite(list(t)))
        bits = [m for m in MEMBERS if m.key.startswith("bit")]
        for a, b in itertools.product(bits, repeat=2):
            cs.append(composite([a, b], use="val"))
    # enumerators
    vals = ["", "0", "1", "-1", "7", "2147483647", "-2147483647 - 1", "2147483648u", "4294967295u", "'A'", "1 << 5"]
    big = ["0x100000000ll", "-1ll", "0x7fffffffffffffffll", "0x8000000000000000ull", "0xffffffffffffffffull"]
    lists = [l for n in (1, 2, 3) for l in itertools.product(vals if n < 3 or not quick else vals[:5], repeat=n)] + [l for n in (1, 2) for l in itertools.product(vals[:4] + big, repeat=n) if set(l) & set(big)]
    for l in lists:
        body = ", ".join("V@_%d%s" % (k, " = " + v if v else "") for k, v in enumerate(l))
        en = ["V@_%d" % k for k in range(len(l))]
        cs.append(Case("enum:" + ",".join(v or "next" for v in l), "enum E@ { %s };\n" % body, ["int f@(enum E@ e);"], "enum E@", [], en))
    for l in lists[:150:7]:
        body = ", ".join("V@_%d%s" % (k, " = " + v if v else "") for k, v in enumerate(l))
        en = ["V@_%d" % k for k in range(len(l))]
        cs.append(Case("enum typedef:" + ",".join(v or "next" for v in l), "typedef enum { %s } E@;\n" % body, ["E@ f@(void);"], "E@", [], en))
        cs.append(Case("enum both:" + ",".join(v or "next" for v in l), "typedef enum E@ { %s } E@_t;\n" % body, ["E@_t *f@(E@_t *e);"], "enum E@", [], en))
        cs.append(Case("enum same:" + ",".join(v or "next" for v in l), "typedef enum E@ { %s } E@;\n" % body, ["E@ f@(E@ e);"], "E@", [], en))
        cs.append(Case("enum same tag:" + ",".join(v or "next" for v in l), "typedef enum E@ { %s } E@;\n" % body, ["void f@(enum E@ e);"], "enum E@", [], en))
        cs.append(Case("enum packed:" + ",".join(v or "next" for v in l), "enum __attribute__((packed)) E@ { %s };\n" % body, ["void f@(enum E@ *e);"], "enum E@", [], en))
    cs.append(Case("enum expression", "enum E@ { V@_0 = 3, V@_1 = V@_0 * 2, V@_2 = sizeof(int), V@_3 };\n", ["void f@(enum E@ e);"], "enum E@", [], ["V@_%d" % k for k in range(4)]))
    cs += graphs(quick)
    cs += names(quick)
    return cs


def names(quick):
    """two types whose tags and typedef names coincide in every way that C allows"""
    r = []
    forms = [(t, d) for t in ("", "a@", "a@__@", "_a@") for d in ("", "_@_", "a@", "a@__@", "a@__@_", "_@") if t or d]
    kinds = ["struct", "union"]
    for n, ((t0, d0), (t1, d1)) in enumerate(itertools.permutations(forms, 2)):
        if (t0 and t0 == t1) or (d0 and d0 == d1):
            continue
        for ref in ("", "ptr", "ptr typedef") if not quick else ("", "ptr")[n % 2:][:1]:
            for u in (0, 1):
                k0, k1 = kinds[n % 2], kinds[n // 2 % 2]
                dcl = lambda k, t, d, body: "%s%s %s { %s }%s;\n" % ("typedef " if d else "", k, t, body, " " + d if d else "")
                tn = lambda k, t, d, pref: d if d and (pref or not t) else "%s %s" % (k, t)
                n0 = tn(k0, t0, d0, ref == "ptr typedef" or n % 3 == 0)
                n1 = tn(k1, t1, d1, n % 5 < 3)
                text = dcl(k0, t0, d0, "int x; short y;") + dcl(k1, t1, d1, "char z[7];" + (" %s *r;" % n0 if ref else ""))
                obs = [[("o", "x"), ("o", "y")], [("o", "z")] + ([("o", "r"), ("o", "r->y")] if ref else [])][u]
                fs = ["void f@(%s p);" % n0, "void g@(%s p);" % n1]
                r.append(Case("names:%s/%s,%s/%s:%s:%d" % (t0, d0, t1, d1, ref, u), text, fs[::-1] if n % 7 < 3 else fs, (n0, n1)[u], obs))
    return r


def graphs(quick):
    """three types referring to one another in every way, declared in every order, each used by a function or not"""
    r = []
    refs = ["", "ptr", "val", "arr", "fn"]
    forms = ["tag", "typedef"] if quick else ["tag", "typedef", "union"]
    txt = {"ptr": "%s *%s;", "val": "%s %s;", "arr": "%s %s[2];", "fn": "void (*%s2)(%s *);"}
    edges = [(0, 1), (0, 2), (1, 2), (1, 0), (2, 0), (2, 1)]
    for form in forms:
        for combo in itertools.product(refs if not quick else ["", "ptr", "val", "fn"], repeat=len(edges)):
            by = {e: k for e, k in zip(edges, combo) if k}
            if not by or len(by) > (3 if quick else 4):
                continue
            val = {e for e, k in by.items() if k in ("val", "arr")}
            # no cycle of containment; the order of declaration follows it
            order = []
            left = [0, 1, 2]
            while left:
                nx = [n for n in left if all(b not in left for a, b in val if a == n)]
                if not nx:
                    break
                order.append(nx)
                left = [n for n in left if n not in nx]
            if left:
                continue
            n = sum(1 << k for k, e in enumerate(edges) if e in by) + len(by)
            for used in ((0,), (1,), (2,)) if not quick else ((n % 3,),):
                seq = [x for grp in order for x in (grp if (n + used[0]) % 2 else grp[::-1])]
                kw = "union" if form == "union" else "struct"
                name = lambda k: "%s G@_%d" % (kw, k)
                tn = lambda k: "G@_%dt" % k if form == "typedef" else name(k)
                text = "".join("%s;\n" % name(k) for k in range(3)) if n % 3 else ""
                if form == "typedef":
                    text += "".join("typedef %s G@_%dt;\n" % (name(k), k) for k in range(3))
                elif not n % 3:
                    text += "".join("%s;\n" % name(k) for k in range(3))
                obs = []
                for k in seq:
                    mem = ["char c%d;" % k]
                    for (a, b), kind in by.items():
                        if a != k:
                            continue
                        mem.append(txt[kind] % ((tn(b), "m%d" % b) if kind != "fn" else ("m%d" % b, tn(b))))
                    text += "%s { %s };\n" % (name(k), " ".join(mem))
                u = used[0]
                obs = [("o", "c%d" % u)] + [("o", "m%d" % b + ("2" if k == "fn" else "")) for (a, b), k in by.items() if a == u]
                for (a, b), k in by.items():
                    if a == u and k in ("val", "ptr"):
                        obs.append(("o", "m%d%sc%d" % (b, "->" if k == "ptr" else ".", b)))
                r.append(Case("graph:%s:%s:%d" % (form, ",".join("%d%s%d" % (a, k, b) for (a, b), k in by.items()), u), text, ["void f@(%s p);" % (tn(u) if n % 2 else tn(u) + " *")], tn(u), obs))
    return r


def G04(c):
    gen = embuild.generator()
    cs = g04_cases(c.quick)
    lab = TLab(c, gen)
    inv = lab.run(cs)
    c.add(states=len(cs) - inv, transitions=lab.nobs, traces_validated_against_impl=lab.headers, headers=lab.headers, not_accepted_by_the_compiler=inv)
    for x in cs[:: max(1, len(cs) // 10)]:
        c.sample(x.key)
    c.assumptions += ["gcc 13 decides the layout of the original and of the generated types", "types beyond the member forms of checks/gen_types.py are not enumerated"]
