"""G13: the mocks of several headers in one program: file names, contents, orders of inclusion and of linking, kept types."""
import itertools, os
import embuild
from emcheck import *
from cgram import *
from cmock import Fn, driver, header_text, REC
import gen_cpp
from gen_cpp import CF, CppLab, SCOPES, SLOTS, slot, PRE

INT, CH = ("b", "int", "INT"), ("b", "char", "INT")
S_ = ("b", "struct S", "STRUCT")


def B_(s):
    return [t for t in BASIC + NAMED if t[1] == s][0]


P = lambda t, q="": ("p", t, q)
C = lambda t: ("q", "const", t)

# ---------------------------------------------------------------------------------------------- file names
NAMES = ["x.h", "X.h", "xy.h", "x_y.h", "x-y.h", "x.y.h", "x.z.h", "x__y.h", "x_.h", "_x.h", "-x.h", "x-.h", "x+y.h", "x y.h", "1x.h", "x1.h", "x\u00e9.h", "x~y.h", "x,y.h", "x@y.h", "easyMock.h2.h", "h.h", "H_.h", "x_2dy.h", "easyMock_x.h", "x_easymock.h", "x_EASYMOCK_H.h", "x#y.h", "x(y).h", "x'y.h", "x%y.h", "x=y.h"]


# ---------------------------------------------------------------------------------------------- contents of C headers
def units():
    """(key, text before the functions, functions); @ is the number of the header"""
    u = []
    add = lambda k, pre, fns: u.append((k, pre, fns))
    add("int", "", [("f@", INT, [(INT, "a")])])
    add("struct", "", [("f@", S_, [(S_, "a"), (P(S_), "b")])])
    add("types", "", [("f@", B_("Ts"), [(B_("enum E"), "a"), (B_("Tas"), "b"), (P(C(B_("Ts"))), "c"), (B_("union U"), "d")]), ("g@", B_("Te"), [(B_("Tfp"), "a")])])
    add("prefix", "", [("f", INT, [(INT, "a")]), ("f_", INT, [(CH, "a")])])
    add("prefixed", "", [("f_f", INT, [(INT, "f")]), ("ff", VOID, [])])
    add("mocked_", "", [("mocked_f", INT, [(INT, "mocked")]), ("_f", VOID, [(P(VOID), "a")])])
    add("void", "", [("v@", VOID, []), ("w@", VOID, [(INT, "a")]), ("z@", P(VOID), [])])
    add("unnamed", "", [("f@", INT, [(INT, ""), (P(C(CH)), "")]), ("h@", VOID, [(S_, "")])])
    add("output", "", [("f@", VOID, [(P(INT), "o"), (P(S_), "p")])])
    add("system", "#include <stddef.h>\n#include <stdint.h>\n#include <stdio.h>\n", [("f@", INT, [(P(VOID), "a"), (B_("unsigned long"), "n")])])
    add("own_types", "struct Own@ { int a; char b[4]; };\ntypedef struct { short q; } OwnT@;\nenum OwnE@ { OwnE@_A, OwnE@_B };\n", [("f@", INT, [(P(("b", "struct Own@", "STRUCT")), "a"), (P(("b", "OwnT@", "STRUCT")), "b")])])
    add("macros", "#define MAC_SAME 1\n#define MAC_@ 2\n#define MACF_SAME(x) (x + 1)\n", [("f@", INT, [(INT, "a")])])
    add("opaque", "struct Opaque;\ntypedef struct Opaque OpaqueT;\n", [("f@", P(("b", "struct Opaque", "OPAQUE")), [(P(("b", "OpaqueT", "OPAQUE")), "a")])])
    add("callback", "", [("f@", fnptrs(INT, [CH, P(S_)]), [(fnptrs(INT, [CH, P(S_)]), "cb")]), ("g@", VOID, [(B_("Tfp"), "cb")])])
    add("many", "", [("m@_%d" % k, INT if k % 2 else P(S_), [((INT, CH, S_, P(S_))[(k + j) % 4], "abc"[j]) for j in range(k % 4)]) for k in range(8)])
    add("const", "", [("f@", P(C(S_)), [(C(INT), "a"), (P(C(CH)), "b"), (P(C(S_), "const"), "c")])])
    return u


def fns_of(u, k):
    sub = lambda t: tuple(x.replace("@", str(k)) if isinstance(x, str) else sub(x) if isinstance(x, tuple) else x for x in t)
    return u[1].replace("@", str(k)), [Fn(n.replace("@", str(k)), sub(r), [(sub(t), pn) for t, pn in ps], key="%s@%d" % (u[0], k)) for n, r, ps in u[2]]


SELF = {"prefix", "prefixed", "mocked_"}       # cannot be declared by two headers


class Multi:
    CC = ["gcc", "-std=gnu11", "-w", "-O0", "-g0"]

    def __init__(self, c, gen, fw):
        import threading
        self.c, self.gen, self.fw, self.n, self.programs, self.hist, self.l = c, gen, fw, 0, 0, 0, threading.Lock()

    def dir(self):
        with self.l:
            self.n += 1
            d = os.path.join(self.c.work, "m%d" % self.n)
        os.makedirs(d)
        return d

    def program(self, key, headers, fns, orders, args, shared=None, cpp=False):
        """headers: [(file name, text)]; fns: all functions; orders: [(include order, link order)]"""
        d = self.dir()
        ext, comp = ("cpp", CppLab.CXX) if cpp else ("c", self.CC)
        try:
            for n, t in (shared or {}).items():
                write(d + "/" + n, t)
            objs = []
            for k, (n, t) in enumerate(headers):
                write(d + "/" + n, t)
            gt = "--generate-types" in args
            for k, (n, t) in enumerate(headers):
                rc, out = generate(self.gen, d + "/" + n, d, list(args))
                if rc != 0:
                    return [(key, "generate", "%s: exit %s: %s" % (n, rc, out[-300:]), d)]
            stem = lambda n: n[:n.rindex(".")]
            if gt:
                # the mocks do not need the original headers
                for n in [x for x, _ in headers] + list(shared or {}):
                    os.rename(d + "/" + n, d + "/" + n + ".orig")
            for k, (n, t) in enumerate(headers):
                rc, out = sh(comp + ["-c", "-I" + d, "-I" + FWINC, d + "/easyMock_%s.%s" % (stem(n), ext), "-o", d + "/m%d.o" % k])
                if rc != 0:
                    return [(key, "compile", "%s: %s" % (n, errs(out)), d)]
            bad = []
            for inc, link in orders:
                iname = "all.h"
                # one header which includes the mocked headers and their mocks
                write(d + "/all.h", "" if gt else "".join('#include "%s"\n' % headers[k][0] for k in inc))
                write(d + "/easyMock_all.h", "".join('#include "easyMock_%s.h"\n' % stem(headers[k][0]) for k in inc) * 2)
                write(d + "/d." + ext, (gen_cpp.driver if cpp else cdriver)(fns, "all.h"))
                rc, out = sh(comp + ([] if cpp else ["-Werror=incompatible-pointer-types", "-Werror=int-conversion", "-Werror=implicit-function-declaration"]) + ["-I" + d, "-I" + FWINC, d + "/d." + ext] + [d + "/m%d.o" % k for k in link] + ["-o", d + "/d", self.fw, "-Wl,-rpath," + os.path.dirname(self.fw)], timeout=300)
                with self.l:
                    self.programs += 1
                k = "%s:inc%s:link%s" % (key, "".join(map(str, inc)), "".join(map(str, link)))
                if rc != 0:
                    bad.append((k, "use", errs(out), d))
                    continue
                rc, out = sh([d + "/d"], timeout=60)
                if rc != 0 or not out.rstrip().endswith("END 0"):
                    bad.append((k, "run", "exit %s\n%s" % (rc, "\n".join([l for l in out.splitlines() if l.startswith("BAD")][:6]) or out[-300:]), d))
                for l in out.splitlines():
                    if l.startswith("HIST "):
                        with self.l:
                            self.hist += int(l[5:])
            for k, st, tx, _ in bad[:1]:
                return [(k, st, tx, d, self.files(d, [x for x, _ in headers] + list(shared or {}) + ["all.h", "easyMock_all.h", "d." + ext]))]
            return []
        finally:
            shutil.rmtree(d, True)

    def files(self, d, names):
        o = {}
        for n in names:
            for p in (n, n + ".orig"):
                if os.path.exists(d + "/" + p):
                    o[n] = open(d + "/" + p).read()
        return o

    def run(self, jobs):
        for job, bad in zip(jobs, pmap(lambda j: self.program(**j), jobs)):
            for b in bad:
                key, st, tx = b[:3]
                files = b[4] if len(b) > 4 else {n: t for n, t in job["headers"]}
                self.c.violation(("%s:%s" % (st, key)).replace(" ", "_"), "headers %s%s fail at %s: %s" % (", ".join(n for n, _ in job["headers"]), " with " + " ".join(job["args"]) if job["args"] else "", st, tx), files)


def errs(out):
    return "\n".join([l for l in out.splitlines() if "error" in l or "undefined" in l or "multiple definition" in l][:4])


def cdriver(fns, hname):
    """the values of every function, and all histories over the expectations and the calls of all functions"""
    src = driver(fns, hname)
    # only the types of the functions are generated
    head, body = src.split(REC)
    for use, word in (("EQ_S2(", "eq_S2("), ("EQ_S(", "eq_S("), ("EQ_TAS(", "eq_Tas(")):
        if use not in body:
            head = "\n".join(l for l in head.splitlines() if word not in l) + "\n"
    src = head + REC + body
    K = min(len(fns), 6)
    use = fns[:K] if len(fns) <= 6 else [fns[0], fns[1], fns[len(fns) // 2 - 1], fns[len(fns) // 2], fns[-2], fns[-1]]
    K = len(use)
    depth = 5 if K <= 2 else 4 if K <= 4 else 3
    o = []
    for i, f in enumerate(use):
        isvoid = f.ret == VOID
        zi = fns.index(f)
        args = ["*(T%d_%d *)Z" % (zi, j) for j in range(len(f.params))]
        o.append("static void hx%d(void) { %s_ExpectAndReturn(%s); }\nstatic void hc%d(void) { %s(%s); }\n" % (i, f.name, ", ".join(args + ([] if isvoid else ["*(R%d *)Z" % zi]) + ["0"] * len(f.params)), i, f.name, ", ".join(args)))
    o.append("static int nerr_(void) { unsigned n = 0; easyMock_getErrorArr(&n); return (int)n; }\n")
    o.append("static void histories(void) {\n  void (*ex[])(void) = { %s };\n  void (*ca[])(void) = { %s };\n  long total = 1, h; int d; for(d = 0; d < %d; d++) total *= %d; cur = \"histories\";\n" % (", ".join("hx%d" % i for i in range(K)), ", ".join("hc%d" % i for i in range(K)), depth, 2 * K))
    o.append(r'''  for(int oc = 0; oc < 2; oc++) for(h = 0; h < total; h++) {
    int ne[%d] = {0}, nc[%d] = {0}, q[16], qh = 0, qt = 0, errs = 0; long c = h; int i, ok;
    easyMock_init(); easyMock_setPrintCallStack(0); easyMock_setCheckCallsOrder(oc);
    for(d = 0; d < %d; d++, c /= %d) {
      int op = c %% %d; i = op / 2;
      if(op %% 2 == 0) { ex[i](); ne[i]++; q[qt++] = i; }
      else {
        ca[i](); nc[i]++;
        // the k-th call is served by the k-th expectation
        if(nc[i] > ne[i]) errs++;
        else { int w = qh < qt ? q[qh++] : -1; if(oc && w != i) errs++; }
        if(nerr_() != errs) { fail("history", (int)h, d); errs = nerr_(); }
      }
    }
    ok = errs == 0; for(i = 0; i < %d; i++) ok = ok && nc[i] == ne[i];
    if((easyMock_check() != 0) != ok) fail("history_check", (int)h, oc);
  }
  easyMock_setCheckCallsOrder(0);
  printf("HIST %%ld\n", 2 * total);
}
''' % (K, K, depth, 2 * K, 2 * K, K))
    return src.replace("int main(void) {", "static unsigned char Z[4096] __attribute__((aligned(16)));\n" + "".join(o) + "int main(void) {").replace('  printf("END', '  histories();\n  printf("END')


def hdr(k, pre, fns, common=True):
    return "#ifndef HDR_%d\n#define HDR_%d\n%s%s%s\n#endif\n" % (k, k, '#include "common.h"\n' if common else "", pre, "\n".join(f.proto() for f in fns))


COMMON = "#ifndef COMMON_H_\n#define COMMON_H_\n%s\n#endif\n" % PRELUDE


def orders2(n):
    ps = list(itertools.permutations(range(n)))
    return [(p, p) for p in ps] + ([(ps[0], ps[-1])] if n > 1 else [])


def G13(c):
    gen, fw = embuild.generator(), embuild.framework("plain")
    m = Multi(c, gen, fw)
    jobs = []
    US = units()
    modes = [("original", []), ("types", ["--generate-types"])]
    # contents: every pair (and itself)
    for (i, a), (j, b_) in itertools.combinations_with_replacement(enumerate(US), 2):
        if i == j and a[0] in SELF:
            continue
        for mk, margs in modes:
            # (generated system macros disturb system headers, see G16)
            if mk == "types" and (c.quick and (i + j) % 2 or "system" in (a[0], b_[0])):
                continue
            (p0, f0), (p1, f1) = fns_of(a, 0), fns_of(b_, 1)
            jobs.append(dict(key="pair:%s:%s+%s" % (mk, a[0], b_[0]), headers=[("a.h", hdr(0, p0, f0)), ("b.h", hdr(1, p1, f1))], fns=f0 + f1, orders=orders2(2), args=margs, shared={"common.h": COMMON}))
    # triples
    for n, (i, j, k) in enumerate(itertools.combinations(range(len(US)), 3)):
        if n % (29 if c.quick else 5):
            continue
        for mk, margs in modes:
            if mk == "types" and "system" in [US[q][0] for q in (i, j, k)]:
                continue
            x = [fns_of(US[q], z) for z, q in enumerate((i, j, k))]
            jobs.append(dict(key="triple:%s:%s" % (mk, "+".join(US[q][0] for q in (i, j, k))), headers=[("%s.h" % "abc"[z], hdr(z, p, f)) for z, (p, f) in enumerate(x)], fns=[f for _, fs in x for f in fs], orders=orders2(3)[::2], args=margs, shared={"common.h": COMMON}))
    # file names: every pair
    for n, (x, y) in enumerate(itertools.combinations(NAMES, 2)):
        if "easyMock_" + x == y or "easyMock_" + y == x:
            continue        # the mock of one is the other header
        near = set(x.lower()) ^ set(y.lower())
        if c.quick and len(near) > 2 and n % 5:
            continue
        for mk, margs in modes if not c.quick else [modes[n % 2]]:
            (p0, f0), (p1, f1) = fns_of(US[n % 3], 0), fns_of(US[(n + 1) % 3], 1)
            jobs.append(dict(key="names:%s:%s+%s" % (mk, x, y), headers=[(x, hdr(0, p0, f0)), (y, hdr(1, p1, f1))], fns=f0 + f1, orders=orders2(2), args=margs, shared={"common.h": COMMON}))
    # headers which include each other: every graph over three headers
    edges = [(0, 1), (0, 2), (1, 0), (1, 2), (2, 0), (2, 1)]
    for g in range(64):
        if c.quick and g % 3 == 2:
            continue
        x = [fns_of(US[q], z) for z, q in enumerate((1, 2, 10))]
        hs = [("%s.h" % "abc"[z], hdr(z, "".join('#include "%s.h"\n' % "abc"[t] for b, (s, t) in enumerate(edges) if s == z and g >> b & 1) + p, f)) for z, (p, f) in enumerate(x)]
        for mk, margs in modes:
            jobs.append(dict(key="includes:%s:%d" % (mk, g), headers=hs, fns=[f for _, fs in x for f in fs], orders=orders2(3)[:2] if c.quick else orders2(3), args=margs, shared={"common.h": COMMON}))
    # C++: the slots of G10 in different headers
    prs = list(itertools.combinations(range(len(SLOTS)), 2))
    for n, (i, j) in enumerate(prs):
        f, g = slot(i), slot(j)
        if f.scope is g.scope and f.scope.classes:
            continue
        jobs.append(cppjob("cpp:pair:%d,%d" % (i, j), [[f], [g]], orders2(2)[: 1 if c.quick and n % 3 else 3]))
    for n, (i, j, k) in enumerate(itertools.combinations(range(len(SLOTS)), 3)):
        fs = [slot(i), slot(j), slot(k)]
        if n % (97 if c.quick else 13) or len({f.scope.key for f in fs if f.scope.classes}) != len([f for f in fs if f.scope.classes]):
            continue
        jobs.append(cppjob("cpp:triple:%d,%d,%d" % (i, j, k), [[f] for f in fs], orders2(3)[:2]))
    # the same method names and types in classes and namespaces of two headers
    for n, (s0, s1) in enumerate(itertools.permutations(SCOPES, 2)):
        if s0.classes and s1.classes and s0.classes[0] == s1.classes[0] and s0.nss == s1.nss or c.quick and n % 4:
            continue
        sig = [("get", "std::string", [("int", "a")]), ("set", "void", [("const std::string &", "a"), ("t::T", "b")])], [("get", "int", [("std::string", "a"), ("double", "b")]), ("set", "t::T", [("t::T *", "a")])]
        hs = [[CF(s, (gen_cpp.MEMFORMS if s.classes else gen_cpp.FREEFORMS)[0], nm, r, ps, "%s%d" % (nm, z)) for nm, r, ps in sig[z]] for z, s in enumerate((s0, s1))]
        jobs.append(cppjob("cpp:scopes:%s+%s" % (s0.key, s1.key), hs, orders2(2)[:1] if c.quick else orders2(2)))
    if os.environ.get("EM_COUNT"):
        print(len(jobs), flush=True)
    m.run(jobs)
    c.add(states=m.hist + m.programs, transitions=m.hist * 4 + m.programs, traces_validated_against_impl=m.programs, programs=m.programs, header_sets=len(jobs), histories=m.hist)
    for j in jobs[:: max(1, len(jobs) // 10)]:
        c.sample(j["key"])
    c.assumptions += ["gcc 13 decides what compiles and links", "two headers whose names differ only in the extension have the same mock and are not put together", "comparators of the same type in two mocks clash, as documented in --help"]


def cppjob(key, parts, orders):
    hs = []
    for z, fs in enumerate(parts):
        t = gen_cpp.header(fs, pre='#include "pre.h"\n').replace("HDR_G10", "HDR_%d" % z)
        # the padding members of a class are the harness's own
        hs.append(("%s.h" % "abc"[z], t))
    return dict(key=key, headers=hs, fns=[f for fs in parts for f in fs], orders=orders, args=["--mock-cpp"], shared={"pre.h": "#ifndef PRE_H_\n#define PRE_H_\n%s\n#endif\n" % PRE}, cpp=True)
