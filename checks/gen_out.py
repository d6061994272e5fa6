"""R10: output parameters of generated C mocks."""
import itertools
import embuild
from emcheck import *
from cgram import *
from cmock import *
from gen_c import type_space, valid, norm, MIX, INT, PINT

def out_kind(t):
    """None: no output parameter, "obj": one object, "size": with a size.  The documented rule: a pointer (not a typedef of one)
    whose pointed-to types are neither const nor functions; untyped and incomplete pointees need a size"""
    t = strip(decay(t))
    if t[0] != "p":
        return None
    u = t
    while u[0] == "p":
        u = u[1]
        while u[0] == "q":
            if u[1] == "const":
                return None
            u = u[2]
        if u[0] == "p" and "const" in u[2]:
            return None
    if u[0] in "af" or u[1] in ("Tfn", "Tfp", "Tfpv", "Tci"):
        return None
    return "size" if kind(u) in ("VOID", "INC") else "obj"


SIZES = [0, 1, 3, 8, 17, 100]

HEAD = r"""
#define G 32
static unsigned char dst[8][G + 160 + G] __attribute__((aligned(32))), src[8][3][G + 160 + G] __attribute__((aligned(32))), was[8][3][G + 160 + G];
static int untouched(const unsigned char *p, unsigned long n, unsigned char v) { unsigned long i; for(i = 0; i < n; i++) if(p[i] != v) return 0; return 1; }
"""


def drv(fns, header):
    o = ['#include "%s"\n#include "easyMock_%s"\n' % (header, header), DRV_HEAD, EQ_PRELUDE, REC, HEAD]
    o.append(matcher_defs(max([len(f.params) for f in fns] + [1])))
    for i, f in enumerate(fns):
        T = lambda j: "T%d_%d" % (i, j)
        for j, (t, n) in enumerate(f.params):
            o.append("typedef %s;\n" % decl(unq(t), T(j)))
        isvoid = kind(f.ret) == "VOID" and f.ret[0] == "b"
        if not isvoid:
            o.append("typedef %s;\n" % decl(unq(f.ret), "R%d" % i))
        outs = [j for j, (t, n) in enumerate(f.params) if out_kind(t)]
        np = len(f.params)
        o.append("static void drv_t%d(void) {\n  int m, v, k; cur = \"%s\";\n" % (i, f.key))
        for j in range(np):
            o.append("  unsigned char a%d[3][sizeof(%s)] __attribute__((aligned(16))), b%d[sizeof(%s)] __attribute__((aligned(16))); unsigned long s%d[3];\n" % (j, T(j), j, T(j), j))
        if not isvoid:
            o.append("  unsigned char r[3][sizeof(R%d)] __attribute__((aligned(16)));\n" % i)
        # m: bit per (expectation 0..2, output): set or null ; v: data variation
        nm = 1 << len(outs)
        o.append("  for(v = 0; v < %d; v++) for(m = 0; m < %d; m++) {\n    int set[3]; set[0] = m; set[1] = %d & ~m; set[2] = (m * 5 + v) %% %d;\n    easyMock_init();\n" % (len(SIZES), nm, nm - 1, nm))
        for j, (t, n) in enumerate(f.params):
            eq, fl = eqfill(t)
            o.append("    psz[%d] = sizeof(%s); for(k = 0; k < 3; k++) %s(a%d[k], sizeof(%s), (v + k + %d) %% 6);\n" % (j, T(j), fl, j, T(j), j))
        for q, j in enumerate(outs):
            ok = out_kind(f.params[j][0])
            sz = "sizeof(*(%s)0)" % T(j) if ok == "obj" else "(unsigned long[]){%s}[(v + k * 2 + %d) %% %d]" % (", ".join(map(str, SIZES)), j, len(SIZES))
            o.append("    for(k = 0; k < 3; k++) { s%d[k] = %s; memset(src[%d][k], 0x3c, sizeof src[0][0]); fill_mem(src[%d][k] + G, s%d[k], v + 6 + k * 3 + %d); memcpy(was[%d][k], src[%d][k], sizeof src[0][0]); }\n" % (j, sz, q, q, j, j, q, q))
        if not isvoid:
            eq, fl = eqfill(f.ret)
            o.append("    for(k = 0; k < 3; k++) %s(r[k], sizeof(R%d), (v + 3 + k) %% 6);\n" % (fl, i))
        args = ["*(%s *)a%d[k]" % (T(j), j) for j in range(np)]
        if not isvoid:
            args.append("*(R%d *)r[k]" % i)
        args += ["m%d" % j for j in range(np)]
        oargs = []
        for q, j in enumerate(outs):
            oargs.append("(set[k] >> %d & 1) ? (%s)(void *)(src[%d][k] + G) : (%s)0" % (q, T(j), q, T(j)))
            if out_kind(f.params[j][0]) == "size":
                oargs.append("s%d[k]" % j)
        o.append("    for(k = 0; k < 3; k++) { if(set[k] == 0 && v %% 2) %s_ExpectAndReturn(%s); else %s_ExpectReturnAndOutput(%s); }\n" % (f.name, ", ".join(args), f.name, ", ".join(args + oargs)))
        o.append("    for(k = 0; k < 3; k++) {\n      nrec = 0; memset(dst, 0xa5, sizeof dst);\n")
        for j, (t, n) in enumerate(f.params):
            if j in outs:
                q = outs.index(j)
                # a null argument is only legal when nothing is written through it
                o.append("      { void *w = (set[k] >> %d & 1) || v != 2 ? dst[%d] + G : 0; memcpy(b%d, &w, sizeof w); }\n" % (q, q, j))
            else:
                eq, fl = eqfill(t)
                o.append("      %s(b%d, sizeof(%s), (v + k + %d) %% 6);\n" % (fl, j, T(j), j + 1))
        call = "%s(%s)" % (f.name, ", ".join("*(%s *)b%d" % (T(j), j) for j in range(np)))
        if isvoid:
            o.append("      %s;\n" % call)
        else:
            eq, fl = eqfill(f.ret)
            o.append("      { R%d rv = %s; if(!%s(&rv, r[k], sizeof(R%d))) fail(\"return\", v, k); }\n" % (i, call, eq, i))
        o.append("      if(nrec != %d) fail(\"matchers\", nrec, %d);\n" % (np, np))
        for j, (t, n) in enumerate(f.params):
            eq, fl = eqfill(t)
            o.append("      if(!%s(actv[%d], b%d, sizeof(%s))) fail(\"actual\", %d, v);\n" % (eq, j, j, T(j), j))
            o.append("      if(!%s(expv[%d], a%d[k], sizeof(%s))) fail(\"expected\", %d, v);\n" % (eq, j, j, T(j), j))
        for q, j in enumerate(outs):
            o.append("      { unsigned long n = (set[k] >> %d & 1) ? s%d[k] : 0;\n" % (q, j))
            o.append("        if(memcmp(dst[%d] + G, src[%d][k] + G, n)) fail(\"output\", %d, m);\n" % (q, q, j))
            o.append("        if(!untouched(dst[%d], G, 0xa5) || !untouched(dst[%d] + G + n, sizeof dst[0] - G - n, 0xa5)) fail(\"around\", %d, m);\n" % (q, q, j))
            o.append("        if(memcmp(src[%d], was[%d], sizeof src[0])) fail(\"source\", %d, m); }\n" % (q, q, j))
        o.append("      if(!untouched(dst[%d], sizeof dst - %d * sizeof dst[0], 0xa5)) fail(\"stray\", m, v);\n" % (len(outs), len(outs)))
        o.append("    }\n    if(!easyMock_check()) fail(\"check\", v, m);\n  }\n}\n")
    o.append("int main(void) { easyMock_init();\n")
    for i in range(len(fns)):
        o.append("  drv_t%d();\n" % i)
    o.append("  printf(\"END %d\\n\", bad); return 0; }\n")
    return "".join(o)


POUT = [PINT, ("p", b("char", "INT"), ""), ("p", b("unsigned __int128", "INT"), ""), ("p", b("long double", "FLT"), ""), ("p", b("struct S", "STRUCT"), ""), ("p", b("struct S2", "STRUCT"), ""),
        ("p", b("Tas", "STRUCT"), "restrict"), ("p", b("enum E", "ENUM"), "const"), ("p", VOID, ""), ("p", b("struct Inc", "INC"), ""), ("p", ("p", INT, ""), ""), ("a", INT, 3), ("p", b("Tpi", "PTR"), ""),
        ("p", b("_Bool", "BOOL"), "volatile"), ("p", ("q", "volatile", INT), ""), ("p", b("Tinc", "INC"), ""), ("p", b("Tvoid", "VOID"), "")]


def R10(c):
    gen, fw = embuild.generator(), embuild.framework("plain")
    ts = [t for t in valid(type_space(2 if c.quick else 3), c) if out_kind(t)]
    fns = []
    for i, t in enumerate(ts):
        fns.append(Fn("p%d" % i, INT if i % 2 else b("struct S", "STRUCT"), [(t, "p")], key="one:" + decl(t)))
    k = 0
    for a, bb in itertools.product(POUT, repeat=2):
        fns.append(Fn("q%d" % k, [INT, VOID, b("double", "FLT"), ("p", VOID, ""), b("struct S2", "STRUCT")][k % 5], [(a, "a"), (bb, "b")], key="pair:%s,%s" % (decl(a), decl(bb))))
        k += 1
    n = len(POUT)
    for i in range(n):
        for pos in range(5):
            ps = [(MIX[(i * 3 + j * 5) % len(MIX)], "x%d" % j) for j in range(5)]
            ps[pos] = (POUT[i], "x%d" % pos)
            ps = [(INT, nm) if j != pos and (decay(t) != t or out_kind(t)) else (t, nm) for j, (t, nm) in enumerate(ps)]
            fns.append(Fn("s%d_%d" % (i, pos), VOID if pos % 2 else INT, ps, key="position:%s@%d" % (decl(POUT[i]), pos)))
        fns.append(Fn("w%d" % i, INT, [(POUT[(i + j) % n], "x%d" % j) for j in range(4)], key="four:%d" % i))
        fns.append(Fn("v%d" % i, VOID, [(POUT[i], "a"), (POUT[(i + 1) % n], "")], key="unnamed:%d" % i))
        fns.append(Fn("y%d" % i, INT, [(POUT[i], "a"), (INT, "n")], variadic=True, key="variadic:%d" % i))
    if not c.quick:
        for k, ps in enumerate(itertools.product(POUT, repeat=3)):
            fns.append(Fn("t%d" % k, [INT, VOID][k % 2], [(t, "x%d" % j) for j, t in enumerate(ps)], key="triple:%s" % ",".join(decl(t) for t in ps)))
    norm(fns)
    lab = Lab(c, gen, fw, drv=drv)
    lab.run(fns)
    calls = sum(len(SIZES) * (1 << sum(1 for t, n in f.params if out_kind(t))) * 3 for f in fns)
    c.add(states=calls, transitions=calls, traces_validated_against_impl=lab.headers, functions=len(fns), output_types=len(ts))
    for f in fns[:: max(1, len(fns) // 10)]:
        c.sample(f.proto())
    c.assumptions += ["a pointer parameter has output data when its innermost pointed-to type is neither const nor a function (the rule documented in the code); const pointees are not asserted on"]
