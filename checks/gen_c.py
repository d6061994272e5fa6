"""Checks of the generator on C headers: G03 (faithful mocks), R10 (output parameters)."""
import itertools
import embuild
from emcheck import *
from cgram import *
from cmock import *

INT = b("int", "INT")
PINT = ("p", INT, "")


def fnptr_types():
    S = b("struct S", "STRUCT")
    return [fnptrs(VOID, ()), fnptrs(INT, (INT,)), fnptrs(S, (S, ("p", b("char", "INT"), ""))), fnptrs(INT, (("p", ("q", "const", b("char", "INT")), ""),)),
            fnptrs(("p", VOID, ""), (fnptrs(VOID, (INT,)),)), fnptrs(fnptrs(VOID, ()), (INT,)), fnptrs(b("Ti", "INT"), (b("Ts", "STRUCT"), b("Te", "ENUM"))),
            fnptrs(b("unsigned char", "INT"), (b("long", "INT"), b("double", "FLT"), ("p", S, ""))), fnptrs(VOID, (("p", ("p", INT, ""), ""), ("p", VOID, ""))),
            fnptrs(INT, (("p", ("q", "const", b("char", "INT")), ""),), True), fnptrs(INT, (), "noproto"), ("p", fnptrs(VOID, ()), ""), ("a", fnptrs(VOID, ()), 3),
            b("Tfn", "FN"), ("p", b("Tfn", "FN"), ""), ("p", b("Tfp", "FP"), ""), ("f", INT, (INT,), False)]


def array_types(base):
    r = []
    for t in base + [PINT, ("p", b("struct S", "STRUCT"), ""), ("q", "const", b("char", "INT")), ("q", "const", b("struct S", "STRUCT"))]:
        r += arrays(t)
    return r + [("a", ("a", INT, 3), 2), b("Tarr", "ARR"), ("p", ("a", INT, 3), "")]


def type_space(depth):
    l0 = BASIC + NAMED
    levels = [l0]
    cur = []
    for t in l0 + POINTEE_ONLY:
        cur += constructors(t)
    levels.append(cur)
    deep = ("int", "char", "struct S", "void", "struct Inc", "Ti", "Tpi", "Ts", "Tfp", "Tinc", "Tpcc", "Tci", "enum E")
    for d in range(2, depth + 1):
        nxt = []
        for t in levels[-1]:
            core = t
            while core[0] in "pq":
                core = core[1] if core[0] == "p" else core[2]
            if t[0] == "p" and (d > 2 or core[1] in deep or True):
                nxt += constructors(t)
        levels.append(nxt)
    out = [t for l in levels for t in l] + array_types(l0) + fnptr_types()
    seen, res = set(), []
    for t in out:
        s = decl(t, "p")
        if s not in seen and not (strip(t)[0] == "b" and kind(t) in ("VOID", "INC")):
            seen.add(s)
            res.append(t)
    return res


def valid(ts, c):
    """drop the combinations gcc itself refuses (nothing is dropped silently: the number is reported)"""
    ok = []
    d = c.work + "/valid"
    os.makedirs(d, exist_ok=True)

    def chk(args):
        k, batch = args
        p = d + "/v%d.c" % k
        write(p, PRELUDE + "\n".join("int v%d(%s);" % (i, decl(t, "p")) for i, t in enumerate(batch)))
        rc, out = sh(["gcc", "-std=gnu11", "-fsyntax-only", "-w", p])
        if rc == 0:
            return batch
        if len(batch) == 1:
            return []
        m = len(batch) // 2
        return chk((k, batch[:m])) + chk((k, batch[m:]))
    parts = [(i, ts[i:i + 64]) for i in range(0, len(ts), 64)]
    for r in pmap(chk, parts):
        ok += r
    return ok


MIX = [b("char", "INT"), b("signed char", "INT"), b("unsigned short", "INT"), INT, b("long", "INT"), b("unsigned long long", "INT"), b("unsigned __int128", "INT"), b("float", "FLT"), b("double", "FLT"),
       b("long double", "FLT"), b("_Bool", "BOOL"), b("struct S", "STRUCT"), b("struct S1", "STRUCT"), b("union U", "STRUCT"), b("enum Eneg", "ENUM"), b("Ts", "STRUCT"), b("Tas", "STRUCT"),
       b("Tti", "INT"), b("Tfp", "FP"), ("p", VOID, ""), ("p", ("q", "const", b("char", "INT")), ""), ("p", b("struct Inc", "INC"), ""), ("p", ("p", INT, ""), ""), ("a", INT, 3),
       fnptrs(INT, (INT,)), ("q", "const", INT), ("p", INT, "const"), ("p", b("struct S", "STRUCT"), "")]

NAMES_OK = ["a", "A", "_x", "x1", "value", "call", "idx", "rv", "param", "name", "instance", "result", "size", "data", "match", "easyMock", "p_out", "out_p", "easyMock_match", "x" * 200,
            "actual", "expected", "i", "count", "mock", "EasyMock_Matcher_p", "init", "reset", "res", "output"]
NAMES_LOCAL = ["to_return", "default_res", "currentDataCall", "mockedData", "errorMessage", "curCallVal", "expectedCallVal", "matcher", "error", "printCallStack", "checkCallsOrder", "currentCall", "curFuncCall"]


def g03_functions(quick, c):
    fns = []
    ts = valid(type_space(2 if quick else 3), c)
    for i, t in enumerate(ts):
        fns.append(Fn("p%d" % i, INT, [(t, "p")], key="param:" + decl(t)))
    nr = 0
    for t in ts:
        if decay(t) == t and t[0] not in "af":
            fns.append(Fn("r%d" % nr, t, [(INT, "p")], key="return:" + decl(t)))
            nr += 1
    k = 0
    mix = MIX
    for t in mix:
        for u in mix:
            r = mix[(k * 7) % len(mix)]
            r = r if decay(r) == r else VOID
            fns.append(Fn("q%d" % k, r, [(t, "a"), (u, "b")], key="pair:%s,%s" % (decl(t), decl(u))))
            k += 1
    for n in range(0, 17):
        for off in range(len(mix)):
            r = mix[(n + 3 * off) % len(mix)]
            r = VOID if off % 5 == 4 or decay(r) != r else r
            fns.append(Fn("n%d_%d" % (n, off), r, [(mix[(off + j) % len(mix)], "x%d" % j) for j in range(n)], key="count:%d/%d" % (n, off)))
    for t in mix:
        for pos in range(6):
            ps = [(INT, "p%d" % j) for j in range(6)]
            ps[pos] = (t, "p%d" % pos)
            fns.append(Fn("s%d_%d" % (mix.index(t), pos), INT if pos % 2 else VOID, ps, key="position:%s@%d" % (decl(t), pos)))
    for i, n in enumerate(NAMES_OK):
        fns.append(Fn("nm%d" % i, INT, [(INT, n), (PINT, "other")], key="name:" + n))
        fns.append(Fn("nl%d" % i, VOID, [(b("long", "INT"), "other"), (b("struct S", "STRUCT"), n)], key="name2:" + n))
    for i, n in enumerate(NAMES_LOCAL):
        fns.append(Fn("nx%d" % i, INT, [(INT, n), (INT, "other")], key="name:" + n))
    for i, t in enumerate(mix):
        fns.append(Fn("u%d" % i, INT, [(t, ""), (INT, ""), (t, "last")], key="unnamed:" + decl(t)))
        if kind(t) != "BOOL":
            fns.append(Fn("va%d" % i, VOID if i % 2 else INT, [(INT, "a"), (t, "b")], variadic=True, key="variadic:" + decl(t)))
    if not quick:
        m12 = [MIX[i] for i in (0, 3, 5, 6, 8, 9, 10, 11, 13, 18, 19, 20)]
        for i, (t, u, w) in enumerate(itertools.product(m12, repeat=3)):
            fns.append(Fn("t%d" % i, w if decay(w) == w else INT, [(t, "a"), (u, "b"), (w, "c")], key="triple:%s,%s,%s" % (decl(t), decl(u), decl(w))))
    return fns, len(ts)


def g03_names():
    """a tag and a typedef (or a parameter) of the same name that mean different types: a header text and its functions"""
    tags = [("struct", "struct %s { short a; char b[7]; };"), ("union", "union %s { long a; char b[12]; };"), ("enum", "enum %s { %s_A = 3, %s_B };")]
    tds = [("int", "typedef int %s;"), ("ptr", "typedef char *%s;"), ("anon", "typedef struct { double x; int y; } %s;"), ("other", "typedef struct %s_o { long long x[3]; } %s;"), ("union", "typedef union %s_u { double x; char y[20]; } %s;"),
           ("enum", "typedef enum { %s_C = 9 } %s;"), ("fnptr", "typedef int (*%s)(char);"), ("own tag", "typedef struct %s_q { char q[3]; } %s; struct %s_r { struct %s_q q; };")]
    pre, fns, n = "", [], 0
    kd = {"int": "INT", "ptr": "PTR", "anon": "STRUCT", "other": "STRUCT", "union": "STRUCT", "enum": "ENUM", "fnptr": "FP", "own tag": "STRUCT"}
    for (tk, tt), (dk, dt) in itertools.product(tags, tds):
        for order in range(6):
            x = "CN%d" % n
            n += 1
            a, d_ = tt.replace("%s", x), dt.replace("%s", x)
            pre += (d_ + "\n" + a if order % 2 else a + "\n" + d_) + "\n"
            T = b("%s %s" % (tk, x), "ENUM" if tk == "enum" else "STRUCT")
            D = b(x, kd[dk])
            seqs = [[T, D], [D, T], [("p", T, ""), D], [D, ("p", T, "")], [("p", D, ""), T], [T, ("p", ("q", "const", D), "")]][order]
            k = "names:%s/%s:%d" % (tk, dk, order)
            fns.append(Fn("c%d_a" % n, INT, [(seqs[0], "a")], key=k + ":first"))
            fns.append(Fn("c%d_b" % n, seqs[1] if decay(seqs[1]) == seqs[1] else INT, [(seqs[1], "a"), (seqs[0], "b")], key=k + ":second"))
            fns.append(Fn("c%d_c" % n, INT, [(seqs[0], x if order < 3 else "b"), (INT, "other")], key=k + ":named_like_the_type"))
    fns.append(Fn("c_ret", b("CN1", "INT"), [(b("CN1", "INT"), "CN1")], key="returned_type_hidden_by_a_parameter"))
    return pre, fns


class MemLab(Lab):
    """mocks and drivers that check every access of theirs"""
    CC = ["gcc", "-std=gnu11", "-w", "-O0", "-g0", "-fsanitize=address", "-fno-omit-frame-pointer"]


VA = [b("va_list", "ARR"), b("__builtin_va_list", "ARR"), b("Tva", "ARR")]


def g03_memory(quick):
    """parameters whose declared type is not the type they have (va_list, arrays, functions), with every kind of neighbour, built with the address sanitizer"""
    fns, n = [], 0
    special = VA + [b("Tarr", "ARR"), ("a", b("char", "INT"), 2), b("Tfn", "FN")]
    for t in special + MIX:
        fns.append(Fn("ma%d" % n, INT, [(t, "p")], key="memory:" + decl(t)))
        n += 1
    for t in special[:3 if quick else 6]:
        for u in MIX + special[:1]:
            for order in range(3):
                ps = [[(t, "a"), (u, "b")], [(u, "a"), (t, "b")], [(u, "a"), (t, "b"), (t, "c")]][order]
                r = u if decay(u) == u and order else VOID
                fns.append(Fn("ma%d" % n, r, ps, variadic=order == 1 and kind(t) != "BOOL", key="memory:%s,%s/%d" % (decl(t), decl(u), order)))
                n += 1
    return fns


def norm(fns):
    for f in fns:
        f.key = f.key.replace(" ", "_")
    return fns


def G03(c):
    gen, fw = embuild.generator(), embuild.framework("plain")
    fns, nt = g03_functions(c.quick, c)
    lab = Lab(c, gen, fw)
    norm(fns)
    lab.run(fns)
    pre, nf = g03_names()
    nlab = Lab(c, gen, fw, prelude=PRELUDE + pre)
    norm(nf)
    nlab.run(nf, 18)
    os.environ["ASAN_OPTIONS"] = "detect_leaks=0"
    mlab = MemLab(c, gen, fw, prelude=PRELUDE + "#include <stdarg.h>\ntypedef va_list Tva;\n")
    mf = g03_memory(c.quick)
    norm(mf)
    mlab.run(mf, 24)
    fns, lab.headers = fns + nf + mf, lab.headers + nlab.headers + mlab.headers
    c.add(states=len(fns), transitions=len(fns) * NV * 2, traces_validated_against_impl=lab.headers, declared_types=nt, headers=lab.headers, name_cases=len(nf), memory_checked=len(mf))
    for f in fns[:: max(1, len(fns) // 10)]:
        c.sample(f.proto())
    c.assumptions += ["gcc 13 decides what compiles and links", "types beyond the grammar of checks/cgram.py are not enumerated"]
