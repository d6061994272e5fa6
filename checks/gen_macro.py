"""G16: the macros of a header with --generate-types: every sequence of definitions, every body, every place."""
import itertools, os
import embuild
from emcheck import *

# bodies of object-like macros
OBJ = ["", "1", "-1", "(1 + 2)", "1+2", "1 + +2", "0x1Fu", "1.5e-3", "1.2.3", "'a'", "'\\n'", "L'a'", "\"text\"", "\"a\" \"b\"", "\"a\\\"b\\\\\"", "\"a  b\"", "\"/* no comment */\"", "\"// no comment\"", "u8\"x\"", "int", "unsigned  long", "struct S *", "a.b->c", "a<<=b", "a<b>c", "<stdio.h>", "a/b", "a//comment", "a/*c*/b", "a /* c */ b", "if(a) { b; } else", "do { a; } while(0)", "[3]", "{1, 2}", "a,b", "#", "##", "# x", "a ## b", "@", "\\", "`", "$x", "<:1:>", "a ? b : c", "...", "a...b", "%:", "x = y", "=", "!", "~a&b|c^d", "a&&b||!c", "a--b++c", "M", "M M", "UNDEFINED_MACRO", "__LINE__", "__FILE__", "__attribute__((packed))", "_Pragma(\"once\")", "__VA", "1 \\\n  + 2", "\"a\\\nb\"", "a\\\nb", "defined(X)", "NULL", "\u00e9", "\"\u00e9\"", "a\tb", "??!", "R\"(x)\"", "a\vb", "::", "a::b", ".*", "->*", "long long int * const volatile", "sizeof(int)", "%d", "{{A}}", "{{#B}}x{{/B}}", "$(x)", "*/", "//", "/* c */", "/ *", "( ( (", ")", "(x) (y)", "(x) y"]
# parameters and bodies of function-like macros
FUN = [("()", ""), ("()", "1"), ("( )", "f()"), ("(x)", ""), ("(x)", "x"), ("(x)", "(x)"), ("(x)", "((x)+1)"), ("(x)", "#x"), ("(x)", "# x"), ("(x)", "x##_t"), ("(x)", "x ## _t"), ("(x)", "t_##x##_t"), ("(x)", "#x \"y\""), ("(x)", "x x"), ("(x)", "y"), ("(x,y)", "x y"), ("(x,y)", "x##y"), ("(x, y)", "x,y"), ("( x , y )", "y,x"), ("(x,y,z)", "x+y*z"), ("(...)", "__VA_ARGS__"), ("(...)", "#__VA_ARGS__"), ("(...)", "f(__VA_ARGS__)"), ("(x,...)", "x:__VA_ARGS__"), ("(x, ...)", "f(x, ##__VA_ARGS__)"), ("(x,...)", "f(x __VA_OPT__(,) __VA_ARGS__)"), ("(x...)", "f(x)"), ("(x...)", "#x"), ("(a,b...)", "f(a,##b)"), ("(a, b ...)", "a b"), ("(x)", "\"x\""), ("(x)", "'x'"), ("(x)", "if(x) { return; }"), ("(x)", "do { f(x); } while(0)"), ("(x)", "({ x; })"), ("(x)", "x.x->x"), ("(x)", "-x"), ("(x)", "- x"), ("(x)", "M"), ("(x)", "M(x)"), ("(M)", "M M"), ("(x)", "\\\n  x \\\n  y"), ("(x,\\\ny)", "x y"), ("(x /* c */)", "x /* c */ y"), ("(x)", "x//c"), ("(x)", "#x#x"), ("(x)", "x(y)"), ("(x)", "(x"), ("(int)", "int"), ("(_x1,X_)", "_x1 X_"), ("(...)", "g(__VA_ARGS__, 0)"), ("(x,y)", "x<y>x"), ("(x)", "[x]"), ("(x)", "{x}"), ("(x)", "x,"), ("(x)", "x\\"), ("(x)", "x%:%:y"), ("(x)", "%:x")]
ARGS = ["", "1", "a", "a,b", "a, b ,c", "(a,b)", "\"s\"", "a b", "M", "1,2,3,4", "'c',\"d\"", " a "]


TOK = re.compile(r'"(?:[^"\\]|\\.)*"|\'(?:[^\'\\]|\\.)*\'|[A-Za-z_$]\w*|\.?\d\w*(?:\.\w*)*|\+\+|--|->|<<=?|>>=?|&&|\|\||##|[-+*/%&|^!=<>]=|\.\.\.|\S')


def tokens(line):
    """what a line of uses() says: spaces between tokens are not kept, as the unit tests of the tool have it"""
    a, s, b = line.partition(" @;@ ")
    return TOK.findall(a), re.sub(r"\s", "", b)


def uses(names):
    """a file which shows everything that a macro can expand to"""
    o = ["#define STR_(...) #__VA_ARGS__", "#define STR(...) STR_(__VA_ARGS__)"]
    for n in names:
        o += ["#ifdef %s" % n, "@%s defined: %s @;@ STR(%s)" % (n, n, n)] + ["@%s(%s) : %s(%s) @;@ STR(%s(%s)) STR_(%s(%s))" % (n, a, n, a, n, a, n, a) for a in ARGS] + ["#else", "@%s undefined" % n, "#endif"]
    return "\n".join(o) + "\n"


class Mac:
    """a header with macros: text, its include, command line, the names of its macros"""
    def __init__(self, key, text, names, inc="", args=(), cpp=False, gate=False):
        self.key, self.text, self.names, self.inc, self.args, self.cpp = key, text, list(names), inc, list(args), cpp


def cases(quick):
    r = []
    # every body, renamed so that many fit in one header
    n = 0
    for b in OBJ:
        r.append(Mac("object:" + b, "#define M %s\n" % b, ["M"]))
        r.append(Mac("object_used:" + b, "#define Q 5\n#define M %s\n#define N M\n#define O (M,N)\n" % b, ["M", "N", "O", "Q"]))
    for p, b in FUN:
        r.append(Mac("function:%s %s" % (p, b), "#define M%s %s\n" % (p, b), ["M"]))
        r.append(Mac("function_used:%s %s" % (p, b), "#define N M(N)\n#define O(x) M(x) M\n#define M%s %s\n" % (p, b), ["M", "N", "O"]))
    for (p, b), o in itertools.product(FUN if not quick else FUN[::5], OBJ if not quick else OBJ[::7]):
        r.append(Mac("both:%s %s:%s" % (p, b, o), "#define F%s %s\n#define M %s\n" % (p, b, o), ["F", "M"]))
    # sequences of directives over two names
    ops = {"d1": "#define A 1", "d2": "#define A 2 + x", "da": "#define A(x) [x]", "db": "#define A B", "b1": "#define B 7", "ba": "#define B A", "uA": "#undef A", "uB": "#undef B", "i": "#ifdef A\n#undef A\n#define A 9\n#endif", "n": "#ifndef A\n#define A 8\n#endif", "push": "#pragma push_macro(\"A\")", "pop": "#pragma pop_macro(\"A\")", "inc": "#include \"inc.h\""}
    depth = 3 if quick else 4
    for k in range(1, depth + 1):
        for seq in itertools.product(ops, repeat=k):
            if k == depth and not set(seq) & {"d1", "da"} or seq.count("inc") > 1:
                continue
            if quick and k == 3 and hash_(seq) % 3 and not {"push", "pop"} <= set(seq):
                continue
            if k == 4 and hash_(seq) % 9:
                continue
            # a redefinition without #undef is an error of some compilers only when the bodies differ
            r.append(Mac("sequence:" + ",".join(seq), "\n".join(ops[s] for s in seq) + "\n", ["A", "B", "C"], inc="#define C A\n#undef B\n#define A 3\n" if "inc" in seq else ""))
    # where the macros come from
    dirs = ["", "#define A 1\n", "#undef A\n", "#undef A\n#define A(x) x#x\n".replace("x#x", "#x"), "#ifndef A\n#define A 4\n#endif\n"]
    for cl in ([], ["-DA"], ["-DA="], ["-DA=2"], ["-DA(x)=x+x"], ["-DA=\"q r\""], ["-UA"], ["-DA=2", "-UA"], ["-UA", "-DA=3"], ["-DA=1", "-DA=2"], ["-D", "A=6"], ["-DB=A", "-DA=B"], ["-include", "pre.h"]):
        for before, inc, after in itertools.product(dirs, repeat=3):
            if quick and hash_((tuple(cl), before, inc, after)) % 4:
                continue
            r.append(Mac("place:%s:%s:%s:%s" % (" ".join(cl), before, inc, after), before + "#include \"inc.h\"\n" + after, ["A", "B", "PRE"], inc=inc or "\n", args=cl))
    # conditional parts
    for c1, c2 in itertools.product(["#if 1", "#if 0", "#ifdef A", "#ifndef A", "#if A > 1", "#if defined(A) && A", "#if A(1)"], repeat=2):
        for d in ("", "#define A 1\n", "#define A 2\n"):
            r.append(Mac("condition:%s:%s:%s" % (d, c1, c2), "%s%s\n#define T1 yes\n%s\n#define T2 yes\n#undef A\n#else\n#define T2 no\n#endif\n#else\n#define T1 no\n#endif\n" % (d, c1, c2), ["A", "T1", "T2"]))
    # names
    for nm in ("_A", "__A", "A_", "a", "E1", "int_", "easyMock_x", "EASYMOCK", "H_H_", "f_", "A1", "_EASYMOCK", "UINT", "TRUE", "BIT", "mocked", "linux_", "unix_", "i386_"):
        r.append(Mac("name:" + nm, "#define %s 5\n#define X_%s(%s) %s\n" % (nm, nm, nm, nm), [nm, "X_" + nm]))
    # macros of system headers
    for h, ns in (("limits.h", ["INT_MAX", "CHAR_BIT", "ULONG_MAX"]), ("stdint.h", ["UINT32_MAX", "INT64_C", "SIZE_MAX"]), ("errno.h", ["EINVAL", "ENOENT"]), ("stdbool.h", ["true", "false", "bool"]), ("stddef.h", ["NULL", "offsetof"]), ("fcntl.h", ["O_RDONLY", "O_CREAT"])):
        r.append(Mac("system:" + h, "#include <%s>\n#define MINE %s\n" % (h, ns[0]), ns + ["MINE"]))
    return r


def hash_(x):
    import zlib
    return zlib.crc32(repr(x).encode())


# ------------------------------------------------------------------------------------- macros in declarations
USEFORMS = [("array", "struct S@ { char a[M@]; int b; };", "struct S@"), ("array2", "struct S@ { char a[M@ + 1][2]; char c; };", "struct S@"), ("bits", "struct S@ { unsigned a : M@; unsigned b : 3; };", "struct S@"), ("enum", "enum S@ { S@_a = M@, S@_b };", "enum S@"), ("enum2", "typedef enum { S@_a, S@_b = (M@) * 2, S@_c } S@;", "S@"), ("aligned", "struct S@ { char a __attribute__((aligned(1 << M@))); };", "struct S@"), ("nested", "struct S@ { struct { char x[M@]; } in; union { char y[M@ * 3]; short z; }; };", "struct S@"), ("ptr", "struct S@ { char (*p)[M@]; char q[sizeof(char[M@])]; };", "struct S@"), ("sizeof", "struct S@ { char q[sizeof(int) * M@]; };", "struct S@"), ("expr", "struct S@ { char q[M@ > 4 ? 10 : 20]; };", "struct S@"), ("alias", "typedef char T@[M@ + 2]; typedef struct { T@ a; char z; } S@;", "S@"), ("fn", "struct S@ { void (*f)(char (*)[M@]); char c[M@]; };", "struct S@"), ("type", "struct S@ { TY@ a; char b; };", "struct S@"), ("typeptr", "struct S@ { TY@ *a; TY@ b[M@]; };", "struct S@"), ("member", "struct S@ { char ME@(a); int ME@(b); };", "struct S@"), ("tag", "struct TA@(S) { char a[M@]; };", "struct S@"), ("whole", "DE@(S@, a[M@])", "struct S@")]
DEFS = [("#define M@ 5\n#define TY@ int\n#define ME@(x) x[M@]\n#define TA@(x) x##@\n#define DE@(n, x) struct n { char x; };\n")]
AFTER = [("same", ""), ("redefined", "#undef M@\n#define M@ 7\n#undef TY@\n#define TY@ long\n#undef ME@\n#define ME@(x) x\n#undef TA@\n#define TA@(x) x##_\n"), ("undefined", "#undef M@\n#undef TY@\n#undef ME@\n#undef TA@\n#undef DE@\n"), ("function", "#undef M@\n#define M@(x) x\n#undef TY@\n#define TY@(x) x\n"), ("text", "#undef M@\n#define M@ text\n#undef TY@\n#define TY@ text\n"), ("empty", "#undef M@\n#define M@\n#undef TY@\n#define TY@\n")]


def layout_cases(quick):
    from gen_types import Case
    r = []
    for (uk, use, tn), (ak, after) in itertools.product(USEFORMS, AFTER):
        for fk, f in (("ptr", "void f@(%s *p);" % tn),) + ((("val", "int f@(%s p);" % tn),) if "typedef char S@" not in use else ()):
            for where in ("before", "after"):
                # the macro changes before or after the function
                d = DEFS[0] + use + "\n"
                fns = [f]
                members = {"array": ["a", "b"], "array2": ["a", "c"], "aligned": ["a"], "nested": ["in"], "ptr": ["p", "q"], "sizeof": ["q"], "expr": ["q"], "alias": ["a", "z"], "fn": ["c"], "type": ["a", "b"], "typeptr": ["b"], "member": ["a", "b"], "tag": ["a"], "whole": ["a"]}.get(uk, [])
                obs = [("o", m) for m in members]
                en = ["S@_a", "S@_b"] + (["S@_c"] if uk == "enum2" else []) if uk.startswith("enum") else []
                c = Case("layout:%s:%s:%s:%s" % (uk, ak, fk, where), d + (after if where == "before" else ""), fns, tn, obs, en)
                if where == "after":
                    c.fns = [f + "\n" + after]
                    if ak == "same":
                        continue
                r.append(c)
    return r


class MLab:
    CC = ["gcc", "-std=gnu17", "-w"]

    def __init__(self, c, gen):
        import threading
        self.c, self.gen, self.l = c, gen, threading.Lock()
        self.runs = self.exp = self.n = self.nl = 0

    def pp(self, d, src, args=(), quiet=True):
        """the preprocessed text without white space at the ends, and the warnings"""
        rc, out = sh(["sh", "-c", '"$@" 2>%s/err' % d, "x"] + self.CC + ["-E", "-P"] + list(args) + ["-I" + d, "-I" + FWINC, src])
        return rc, [l for l in out.splitlines() if l.startswith("@")], open(d + "/err", errors="replace").read()

    def stage(self, m, d):
        write(d + "/inc.h", m.inc)
        write(d + "/pre.h", "#define PRE 1\n#define A PRE\n")
        # (the sequences of directives are not behind an include guard: the order of the generated and of the original header counts)
        write(d + "/h.h", "%s\nint f_of_h(int a);\n" % m.text)
        write(d + "/u.c", uses(m.names))
        args = [a if a != "pre.h" else d + "/pre.h" for a in m.args]
        # the original
        write(d + "/o.c", '#include "h.h"\n#include "u.c"\n')
        rc, want, err = self.pp(d, d + "/o.c", args)
        rc2, want2 = sh(["clang", "-std=gnu17", "-w", "-fsyntax-only"] + args + ["-I" + d, "-x", "c", d + "/h.h"])
        if rc2 != 0 or not want or rc != 0 and not any("requires" in l or "argument" in l or "unterminated" in l or "paste" in l or "passed" in l for l in err.splitlines()):
            return "invalid", (err + want2)[-300:]
        os.makedirs(d + "/o")
        rc, out = sh([self.gen, "-i", d + "/h.h", "-o", d + "/o", "--generate-types"] + args)
        with self.l:
            self.runs += 1
        if rc != 0:
            return "generate", "exit %s: %s" % (rc, out[-300:])
        # a user of the generated header, in all orders with the original
        for k, text in (("alone", '#include "o/easyMock_h.h"\n'), ("original first", '#include "h.h"\n#include "o/easyMock_h.h"\n'), ("original last", '#include "o/easyMock_h.h"\n#include "h.h"\n'), ("twice", '#include "o/easyMock_h.h"\n#include "o/easyMock_h.h"\n')):
            if self.c.quick and k == "twice":
                continue
            # the order of the original header matters when it does something else the second time
            if k == "original last" and not m.key.startswith(("object", "function", "both")):
                continue
            write(d + "/g.c", text + '#include "u.c"\n')
            rc, got, err = self.pp(d, d + "/g.c", [] if k == "alone" or k == "twice" else args)
            with self.l:
                self.exp += len(got)
            if list(map(tokens, got)) != list(map(tokens, want)):
                df = [(a, b) for a, b in zip(want, got) if tokens(a) != tokens(b)] or [(want[-1:], got[-1:])]
                return k, "%r in the header, %r in the generated one" % df[0] + "".join("; " + l for l in err.splitlines() if "error" in l)[:200]
        if m.key.startswith(("name", "place", "object_used")):
            # nothing but the macros of the header
            names = lambda src, a=(), cc="gcc": set(re.findall(r"#define (\w+)", sh([cc, "-std=gnu17", "-w", "-dM", "-E", "-I" + d, "-I" + FWINC, src] + list(a))[1]))
            write(d + "/e.c", "#include <stdarg.h>\n#include <easyMock.h>\n")
            write(d + "/g.c", '#include "o/easyMock_h.h"\n')
            extra = {x for x in names(d + "/g.c") - names(d + "/e.c") - names(d + "/o.c", args, "clang") if not re.match(r"_\w*_EASYMOCK_H$|EASYMOCK_\w+_GENERATED$", x)}
            write(d + "/n.c", "")
            extra |= (names(d + "/g.c") - names(d + "/e.c") - names(d + "/o.c", args)) & names(d + "/n.c", (), "clang")
            if extra:
                return "extra", "the generated header defines %s, the header does not" % sorted(extra)[:5]
        if not m.key.startswith("condition") or not self.c.quick:
            rc, out = sh(self.CC + ["-fsyntax-only", "-I" + FWINC, "-I" + d + "/o", d + "/o/easyMock_h.c"])
            if rc != 0:
                return "compile", "\n".join([l.replace(d, "") for l in out.splitlines() if "error" in l][:3])
        return None

    def one(self, m):
        with self.l:
            self.n += 1
            d = "%s/p%d" % (self.c.work, self.n)
        os.makedirs(d)
        try:
            r = self.stage(m, d)
            return r and r + ({f: open(d + "/" + f, errors="replace").read() for f in ("h.h", "inc.h", "u.c")},)
        finally:
            shutil.rmtree(d, True)

    def run(self, ms):
        inv = 0
        for m, bad in zip(ms, pmap(self.one, ms)):
            if bad and bad[0] == "invalid":
                inv += 1
                if os.environ.get("EM_ALL"):
                    print("INVALID", repr(m.key), bad[1][:100].replace("\n", " "))
            elif bad:
                self.c.violation(re.sub(r"\s", "_", "%s:%s" % (bad[0], m.key)), bad[1], bad[2])
        return inv


def G16(c):
    import gen_types
    gen = embuild.generator()
    ms = cases(c.quick)
    ls = layout_cases(c.quick)
    if os.environ.get("EM_COUNT"):
        print(len(ms), len(ls), flush=True)
    lab = MLab(c, gen)
    inv = lab.run(ms)
    t = gen_types.TLab(c, gen)
    inv2 = t.run(ls, size=4)
    c.add(states=lab.runs + t.headers, transitions=lab.exp + t.nobs, traces_validated_against_impl=lab.runs + t.headers, headers=lab.runs, expansions_compared=lab.exp, layouts=len(ls) - inv2, not_accepted_by_the_compiler=inv + inv2)
    for m in ms[:: max(1, len(ms) // 10)]:
        c.sample(m.key)
    c.assumptions += ["gcc's preprocessor decides what a macro expands to", "the compiler's own predefined macros are not the header's"]
