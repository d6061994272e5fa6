"""G12: comments, white space, line breaks, line continuations, directives and macros between any tokens of the declarations."""
import itertools, os, re
import embuild
from emcheck import *
from cgram import *
from cmock import Fn, Lab
import cgram
import gen_types
import gen_cpp
from gen_cpp import CF, CppLab

TOK = re.compile(r"[A-Za-z_@$][\w@$]*|\d+\w*|\"(?:\\.|[^\"\\])*\"|'(?:\\.|[^'\\])*'|\.\.\.|::|->|&&|\S")

# name, text; {} as word separator is added when the tokens would be merged
NOISE = [("space", "   "), ("tab", "\t"), ("newline", "\n"), ("newlines", "\n\n  \n"), ("crlf", "\r\n"), ("formfeed", "\f"), ("vtab", " \v "), ("comment", "/* c */"), ("tight_comment", "/**/"), ("declaration_comment", "/* ; int g(struct S *x) { */"), ("multi_line_comment", "/* a\n * b, c\n */"), ("two_comments", "/* a *//* b */"), ("two_spaced_comments", "/* a */ /* b */"),
         ("line_comment", "// c\n"), ("line_comment_code", "// int g(int x), *y; {\n"), ("line_comment_then_block", "// /* \n"), ("block_with_line", "/* // */"), ("continuation", "\\\n"), ("spaced_continuation", " \\\n  "), ("continuations", " \\\n\\\n\\\n "), ("comment_quote", "/* \" */"), ("comment_apostrophe", "/* it's */"), ("line_quote", "// \"\n"),
         ("stars", "/*** * ***/"), ("comment_slash", "/*/ */"), ("utf8", "/* \xc3\xa9\xe2\x82\xac */".encode("latin1").decode("utf8")), ("continued_line_comment", "// a \\\n b, int c\n"), ("crlf_comment", "// x\r\n"), ("comment_parens", "/* ) ( ]] [[ */"), ("comment_attribute", "/* __attribute__((cold)) */"), ("keywords", "/* static inline extern */")]
DIRECTIVES = [("define", "\n#define Q_@ static\n"), ("ifdef", "\n#ifdef NOT_DEFINED_@\n, garbage ( [ \"\n#endif\n"), ("if_else", "\n#if 0\nint x\n#else\n#endif\n"), ("undef", "\n # undef NOT_@\n"), ("empty", "\n#\n")]
# spelled by macros: (name, definition, use); $ is the text
MACROS = [("object", "#define M_@ $\n", "M_@"), ("nested", "#define N_@ $\n#define M_@ N_@\n", "M_@"), ("function", "#define M_@(x) x\n", "M_@($)"), ("no_parameter", "#define M_@() $\n", "M_@()"), ("variadic", "#define M_@(...) __VA_ARGS__\n", "M_@($)"), ("commented", "#define M_@ /* a */ $ /* b */\n", "M_@"), ("continued", "#define M_@ \\\n  $ \\\n\n", "M_@"),
          ("and_empty", "#define M_@\n", "M_@ $"), ("empty_after", "#define M_@\n", "$ M_@"), ("used_twice", "#define N_@\n#define M_@ N_@ $ N_@\n", "M_@ N_@"), ("parameterised_empty", "#define M_@(x, ...)\n", "M_@(a, b, c) $")]


def B_(s):
    return [t for t in BASIC + NAMED if t[1] == s][0]


P = lambda t, q="": ("p", t, q)
C = lambda t: ("q", "const", t)
V = lambda t: ("q", "volatile", t)
I = ("b", "int", "INT")
CH = ("b", "char", "INT")
S_ = ("b", "struct S", "STRUCT")


def functions():
    """C functions; FN is the name"""
    f = [("ints", I, [(I, "a"), (CH, "bb")], 0, ""), ("const_chars", P(C(CH)), [(P(C(CH), "const"), "s")], 1, "extern "), ("struct", S_, [(S_, "v"), (P(S_), "p")], 0, ""), ("unsigned", B_("unsigned long long"), [(B_("unsigned int"), "u"), (B_("long long"), "l")], 0, ""),
         ("typedefs", B_("Ts"), [(B_("Ti"), "i"), (P(C(B_("Tas"))), "t"), (B_("Tpcc"), "k")], 0, "extern "), ("enums", B_("enum E"), [(B_("enum E"), "e"), (P(B_("Te")), "f")], 0, ""), ("union", B_("union U"), [(B_("union U"), "u"), (P(P(B_("union U"))), "w")], 0, ""),
         ("void", VOID, [], 0, ""), ("pointers", P(VOID), [(P(P(I)), "pp"), (P(C(VOID)), "cv"), (P(P(CH, "const")), "pc")], 0, ""), ("function_pointer", P(VOID), [(fnptrs(I, [CH, P(S_)]), "cb"), (I, "n")], 0, ""), ("returns_function", fnptrs(VOID, [I]), [(I, "a")], 0, ""),
         ("arrays", I, [(("a", I, 4), "arr"), (("a", CH, None), "m")], 0, ""), ("qualifiers", I, [(P(V(I)), "v"), (P(I, "restrict"), "r"), (C(I), "k")], 0, ""), ("unnamed", I, [(I, ""), (P(C(S_)), ""), (B_("Te"), "")], 0, ""), ("attribute", I, [(P(C(CH)), "fmt")], 1, "__attribute__((format(printf, 1, 2))) "), ("extern_attribute", P(S_), [(I, "a")], 0, "extern __attribute__((cold)) "),
         ("typedef_pointers", B_("Tpinc"), [(B_("Tpinc"), "h"), (B_("Tfp"), "cb")], 0, ""), ("anonymous", B_("Tae"), [(B_("Tau"), "x"), (B_("Tae"), "y")], 0, ""), ("const_return", P(C(S_), "const"), [(P(C(S_)), "p")], 0, ""), ("floats", B_("long double"), [(B_("float"), "a"), (B_("double"), "b")], 0, ""), ("bool", ("b", "_Bool", "BOOL"), [(B_("signed char"), "a"), (B_("unsigned char"), "b"), (B_("unsigned short"), "c")], 0, "")]
    out = []
    for k, r, ps, va, pre in f:
        text = pre + Fn("FN", r, ps, bool(va)).proto()
        out.append((k, r, ps, bool(va), TOK.findall(text)))
    return out


def join(toks, gap, noise):
    """the declaration with the noise in one gap (before token gap)"""
    gaps = gap if isinstance(gap, (list, tuple)) else [gap]
    o = ""
    for i, t in enumerate(toks):
        word = i and re.match(r"[\w@$]", t[0]) and re.match(r"[\w@$\"]", o[-1] if o else " ")
        if i in gaps:
            n = noise[gaps.index(i)] if isinstance(noise, list) else noise
            # the tokens stay apart
            o += n if not word or re.search(r"\s|/\*", n.replace("\\\n", "")) else n + " "
        elif i:
            o += " "
        o += t
    if len(toks) in gaps:
        o += noise if isinstance(noise, str) else noise[gaps.index(len(toks))]
    return o


def ok_gap(toks, gap, key):
    # a directive starts a line; a continuation before a directive would hide it
    return True


def macro(toks, i, j, form):
    """tokens i..j-1 spelled through a macro; (definitions, declaration)"""
    k, d, u = form
    t = " ".join(toks[i:j])
    return d.replace("$", t), " ".join(toks[:i] + [u.replace("$", t)] + toks[j:])


def macro_ok(toks, i, j, form):
    t = toks[i:j]
    if not balanced(t):
        return False
    if i and toks[i - 1] == "__attribute__":
        return False
    if "FN" in t or "#" in t:
        # the name of the function is not spelled through a macro: the macro would also replace it in the use of the mock
        return form[0] in ("function", "variadic", "and_empty", "empty_after", "parameterised_empty") and balanced(t)
    if form[0] in ("function", "variadic"):
        return balanced(t) and (form[0] == "variadic" or "," not in flat(t))
    return True


def balanced(t):
    d = 0
    for x in t:
        d += x in "([{"
        d -= x in ")]}"
        if d < 0:
            return False
    return d == 0


def flat(t):
    d, o = 0, []
    for x in t:
        d -= x in ")"
        if d == 0:
            o.append(x)
        d += x in "("
    return o


def variants(quick):
    """(key, function description, text with FN and @)"""
    out = []
    fs = functions()
    for q, (k, r, ps, va, toks) in enumerate(fs):
        for g in range(len(toks) + 1):
            for z, (nk, n) in enumerate(NOISE):
                if quick and (g + z + q) % 4:
                    continue
                out.append(("noise:%s@%d:%s" % (nk, g, k), r, ps, va, join(toks, g, n)))
            for z, (nk, n) in enumerate(DIRECTIVES):
                if (quick and (g + z + q) % 3):
                    continue
                out.append(("directive:%s@%d:%s" % (nk, g, k), r, ps, va, join(toks, g, n)))
        # the same noise everywhere, and the least white space
        for nk, n in NOISE:
            out.append(("everywhere:%s:%s" % (nk, k), r, ps, va, join(toks, list(range(len(toks) + 1)), n)))
        out.append(("tight:" + k, r, ps, va, join(toks, list(range(1, len(toks))), "")))
        # pairs of gaps
        step = 1
        for n, (g1, g2) in enumerate(itertools.combinations(range(len(toks) + 1), 2)):
            ks = [(NOISE[(n * 7 + q) % len(NOISE)], NOISE[(n * 5 + 3 * q + 1) % len(NOISE)])]
            if not quick:
                ks += [(NOISE[(n * 11 + q + 2 + m) % len(NOISE)], NOISE[(n * 3 + q + 5 * m) % len(NOISE)]) for m in range(1, 4)]
            elif (n + q) % 4:
                continue
            for a, b_ in ks:
                out.append(("pair:%s@%d,%s@%d:%s" % (a[0], g1, b_[0], g2, k), r, ps, va, join(toks, [g1, g2], [a[1], b_[1]])))
        for i in range(len(toks)):
            for j in range(i + 1, len(toks) + 1):
                for z, form in enumerate(MACROS):
                    if not macro_ok(toks, i, j, form):
                        continue
                    if quick and ((j - i > 1 and (i + 3 * j + z + q) % 14) or (j - i == 1 and (i + z + q) % 2)):
                        continue
                    if j - i > 3 and not quick and (i + 3 * j + z + q) % 3:
                        continue
                    d, t = macro(toks, i, j, form)
                    out.append(("macro:%s@%d-%d:%s" % (form[0], i, j, k), r, ps, va, d + t))
    return out


TYPES = [("struct", "struct T@ { int m0; const char *m1; unsigned long long m2; };", "struct T@", ["m0", "m1", "m2"], []), ("typedef", "typedef struct { char m0; short m1; } T@_t;", "T@_t", ["m0", "m1"], []), ("tagged_typedef", "typedef struct T@ { struct T@ *m0; double m1; } T@_t;", "T@_t", ["m0", "m1"], []),
         ("union", "union T@ { int m0; double m1; struct GS m2; };", "union T@", ["m0", "m1", "m2"], []), ("nested", "struct T@ { struct { int a; char b; } m0; union { int m1; float m2; }; };", "struct T@", ["m0.a", "m0.b", "m1", "m2"], []), ("arrays", "struct T@ { int m0[3]; char m1[2][5]; struct GS m2[2]; };", "struct T@", ["m0", "m1", "m2"], []),
         ("several", "struct T@ { int m0, m1; char *m2, m3[4]; };", "struct T@", ["m0", "m1", "m2", "m3"], []), ("pointers", "struct T@ { int (*m0)(int, char); void *const m1; struct GFwd *m2; };", "struct T@", ["m0", "m1", "m2"], []), ("bits", "struct T@ { unsigned m0 : 3; int m1 : 5; unsigned : 0; char m2; };", "struct T@", ["m2"], []),
         ("enum", "enum T@ { TA@, TB@ = 4, TC@ = TB@ + 3, TD@ };", "enum T@", [], ["TA@", "TB@", "TC@", "TD@"]), ("enum_typedef", "typedef enum { TA@ = -1, TB@ } T@_t;", "T@_t", [], ["TA@", "TB@"]), ("packed", "struct __attribute__((packed)) T@ { char m0; int m1; };", "struct T@", ["m0", "m1"], []), ("aligned", "struct T@ { char m0; int m1; } __attribute__((aligned(16)));", "struct T@", ["m0", "m1"], []),
         ("typedef_chain", "typedef unsigned short TC@; typedef TC@ T@_t;", "T@_t", [], []), ("typedefs", "struct T@ { GTi m0; GTas m1; GTfp m2; GTpcc m3; };", "struct T@", ["m0", "m1", "m2", "m3"], [])]


def type_cases(quick):
    cs = []
    for q, (k, text, t, obs, en) in enumerate(TYPES):
        toks = TOK.findall(text)
        ob, use = [("o", o) for o in obs], ["%s *f@(%s p);" % (t, t)]
        mk = lambda key, tx: cs.append(gen_types.Case(key, tx + "\n", use, t, ob, en))
        for g in range(len(toks) + 1):
            for z, (nk, n) in enumerate(NOISE + DIRECTIVES):
                if quick and (g + z + q) % 9:
                    continue
                if not quick and (g + z + q) % 2:
                    continue
                mk("noise:%s@%d:%s" % (nk, g, k), join(toks, g, n))
        for nk, n in NOISE:
            mk("everywhere:%s:%s" % (nk, k), join(toks, list(range(len(toks) + 1)), n))
        mk("tight:" + k, join(toks, list(range(1, len(toks))), ""))
        for i in range(len(toks)):
            for j in range(i + 1, min(len(toks), i + 4) + 1):
                for z, form in enumerate(MACROS):
                    if not macro_ok(toks, i, j, form) or (z + i + 5 * j + q) % (13 if quick else 3):
                        continue
                    d, tx = macro(toks, i, j, form)
                    mk("macro:%s@%d-%d:%s" % (form[0], i, j, k), d + tx)
    return cs


CPPF = [("global", "plain", "int", [("const t::T &", "a"), ("t::TEC", "e")]), ("ns2", "plain", "t::T", [("std::string", "s"), ("t::T *", "p")]), ("ns", "trailing", "t::T", [("int &", "r"), ("t::KC::In &&", "q")]), ("class", "const", "const std::string &", [("const char *", "s"), ("int", "n")]), ("ns_class", "virtual", "bool", [("t::TT *", "p"), ("FT", "cb")]),
        ("nested", "static", "t::KC", [("std::vector<int>", "v"), ("HasStr", "h")]), ("struct", "noexcept", "void", [("unsigned long long", "u"), ("G *", "g")]), ("ns2_struct", "const noexcept", "t::TEC", [("const t::u::T &", "x"), ("", "")][:1]), ("class", "private", "int", [("t::KC::KE", "k"), ("const GT", "c")]), ("global", "externc", "int", [("int", "a"), ("char", "c")])]


def cpp_jobs(quick):
    fns = []
    n = 0
    for q, (sc, form, r, ps) in enumerate(CPPF):
        s = [x for x in gen_cpp.SCOPES if x.key == sc][0]
        fm = [x for x in (gen_cpp.MEMFORMS if s.classes else gen_cpp.FREEFORMS) if x[0] == form][0]
        toks = TOK.findall(CF(s, fm, "FN", r, ps, "x").decl())

        def mk(key, text):
            nonlocal n
            n += 1
            f = CF(s, fm, "nf%d" % n, r, ps, key)
            t = text.replace("FN", f.name).replace("@", str(n))
            f.decl = lambda: t + "\n"
            fns.append(f)
        kk = "%s/%s" % (sc, form)
        for g in range(len(toks) + 1):
            for z, (nk, nz) in enumerate(NOISE + DIRECTIVES):
                if (g + z + q) % (10 if quick else 2):
                    continue
                mk("noise:%s@%d:%s" % (nk, g, kk), join(toks, g, nz))
        for z, (nk, nz) in enumerate(NOISE):
            if not quick or (z + q) % 4 == 0:
                mk("everywhere:%s:%s" % (nk, kk), join(toks, list(range(len(toks) + 1)), nz))
        mk("tight:" + kk, join(toks, list(range(1, len(toks))), ""))
        for i in range(len(toks)):
            for j in range(i + 1, min(len(toks), i + 4) + 1):
                for z, fo in enumerate(MACROS):
                    if not macro_ok(toks, i, j, fo) or (z + i + 5 * j + q) % (23 if quick else 3):
                        continue
                    d, tx = macro(toks, i, j, fo)
                    mk("macro:%s@%d-%d:%s" % (fo[0], i, j, kk), "\n" + d + tx)
    return fns


def G12(c):
    gen, fw = embuild.generator(), embuild.framework("plain")
    vs = variants(c.quick)
    fns = []
    for n, (key, r, ps, va, text) in enumerate(vs):
        fns.append(Fn("nz%d" % n, r, ps, va, raw=text.replace("FN", "nz%d" % n).replace("@", str(n)), key=key))
    lab = Lab(c, gen, fw)
    lab.run(fns, size=48)
    sample = [f for k, f in enumerate(fns) if c.quick and k % 7 == 0 or not c.quick and k % 3 == 0]
    tc = type_cases(c.quick)
    tl = gen_types.TLab(c, gen)
    inv = tl.run(tc, size=20)
    cf = cpp_jobs(c.quick)
    cl = CppLab(c, gen, fw)
    cl.run([(p, "together:%d" % k, {}) for k, p in enumerate(gen_cpp.chunks(cf, 24))])
    c.add(states=len(fns) * 12 + len(tc) + len(cf) * 60, transitions=len(fns) * 24 + tl.nobs + len(cf) * 100, traces_validated_against_impl=lab.headers + tl.headers + cl.headers, c_declarations=len(fns), type_declarations=len(tc) - inv, cpp_declarations=len(cf), headers=lab.headers + tl.headers + cl.headers, not_accepted_by_the_compiler=inv)
    for f in fns[:: max(1, len(fns) // 12)]:
        c.sample(f.raw)
    c.assumptions += ["gcc 13 decides that the rewritten declaration means the same as the original", "the name of a function is not spelled through an object-like macro (which would also rename the uses of the mock)"]
