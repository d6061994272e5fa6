"""Builds headers from function descriptions, their mocks, and drivers that observe every value a mock carries."""
import os, re
import embuild
from emcheck import *
from cgram import *


class Fn:
    """one C function: name, return type, [(type, parameter name)]; variadic; raw overrides the declaration text"""
    def __init__(self, name, ret, params, variadic=False, raw=None, key=None, out=None):
        self.name, self.ret, self.params, self.variadic, self.raw = name, ret, params, variadic, raw
        self.key = key or name
        self.out = out    # None: not exercised; else list of per-parameter output kinds

    def proto(self):
        if self.raw is not None:
            return self.raw
        ps = ", ".join(decl(t, n) for t, n in self.params) or "void"
        if self.variadic:
            ps += ", ..."
        return decl(self.ret, "%s(%s)" % (self.name, ps)) + ";"


EQ_PRELUDE = r"""
static int eq_mem(const void *a, const void *b, unsigned long n) { return memcmp(a, b, n) == 0; }
static int eq_S(const void *x, const void *y) { const struct S *a = x, *b = y; return a->a == b->a && !memcmp(a->b, b->b, 5) && a->c == b->c; }
static int eq_S2(const void *x, const void *y) { const struct S2 *a = x, *b = y; return eq_S(&a->in, &b->in) && !memcmp(&a->d, &b->d, 8) && a->p == b->p; }
static int eq_Tas(const void *x, const void *y) { const Tas *a = x, *b = y; return a->u == b->u && a->v == b->v; }
static int eq_ld(const void *x, const void *y) { return memcmp(x, y, 10) == 0; }
#define EQ_S(a, b, n) eq_S(a, b)
#define EQ_S2(a, b, n) eq_S2(a, b)
#define EQ_TAS(a, b, n) eq_Tas(a, b)
#define EQ_LD(a, b, n) eq_ld(a, b)
#define EQ_MEM(a, b, n) eq_mem(a, b, n)
static void fill_mem(void *p, unsigned long n, int s) { unsigned char *q = p; unsigned long i;
  for(i = 0; i < n; i++) q[i] = s == 0 ? (unsigned char)(0x11 + 0x17 * i) : s == 1 ? (unsigned char)(0xE3 - 0x1B * i) : s == 2 ? 0xff : s == 3 ? 0 : s == 4 ? (i == n - 1 ? 0x80 : 0) : (unsigned char)(s * 37 + i * 101); }
static void fill_bool(void *p, unsigned long n, int s) { *(unsigned char *)p = s & 1; (void)n; }
static void fill_f(void *p, unsigned long n, int s) { float v = (float)((s - 2) * 1.25e10f + s); memcpy(p, &v, n); }
static void fill_d(void *p, unsigned long n, int s) { double v = (s - 2) * 1.25e100 + s; memcpy(p, &v, n); }
static void fill_ld(void *p, unsigned long n, int s) { long double v = (s - 2) * 1.25e1000L + s; memset(p, 0, n); memcpy(p, &v, 10); }
"""


def eqfill(t):
    u = strip(decay(t))
    while u[0] == "q":
        u = u[2]
    s = u[1] if u[0] == "b" else ""
    eq = {"struct S": "EQ_S", "Ts": "EQ_S", "struct S2": "EQ_S2", "Tas": "EQ_TAS", "long double": "EQ_LD"}.get(s, "EQ_MEM")
    fl = {"float": "fill_f", "double": "fill_d", "Td": "fill_d", "long double": "fill_ld", "_Bool": "fill_bool", "bool": "fill_bool"}.get(s, "fill_mem")
    return eq, fl


DRV_HEAD = r"""
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <easyMock.h>
"""

REC = r"""
#define MAXP 40
static unsigned char actv[MAXP][256], expv[MAXP][256]; static char pname[MAXP][256]; static int order[MAXP]; static int nrec;
static unsigned long psz[MAXP];
static int rec(int j, const void *a, const void *e, const char *n) { if(nrec >= MAXP) return 0; memcpy(actv[j], a, psz[j]); memcpy(expv[j], e, psz[j]); strncpy(pname[j], n, 255); order[nrec++] = j; return 0; }
static const char *cur; static int bad;
static void fail(const char *what, int a, int b) { bad = 1; printf("BAD %s %s %d %d\n", cur, what, a, b); }
"""


def matcher_defs(n):
    return "".join("static int m%d(const void *a, const void *e, const char *n, char *err) { (void)err; return rec(%d, a, e, n); }\n" % (j, j) for j in range(n))


NV = 6


def driver(fns, header, extra_includes=()):
    """C source that queues and makes calls for every function and prints BAD <key> ... for every wrong observation"""
    o = ['#include "%s"\n#include "easyMock_%s"\n' % (header, header), DRV_HEAD, EQ_PRELUDE, REC]
    o.append(matcher_defs(max([len(f.params) for f in fns] + [1])))
    for i, f in enumerate(fns):
        T = lambda j: "T%d_%d" % (i, j)
        for j, (t, n) in enumerate(f.params):
            o.append("typedef %s;\n" % decl(unq(t), T(j)))
        isvoid = kind(f.ret) == "VOID" and f.ret[0] == "b"
        if not isvoid:
            o.append("typedef %s;\n" % decl(unq(f.ret), "R%d" % i))
        o.append("static void drv_t%d(void) {\n  int v; cur = \"%s\";\n" % (i, f.key.replace("\\", "\\\\").replace('"', '\\"')))
        # two expectations queued before two calls, for every value pair
        for j in range(len(f.params)):
            o.append("  unsigned char a%d[2][sizeof(%s)] __attribute__((aligned(16))), b%d[2][sizeof(%s)] __attribute__((aligned(16)));\n" % (j, T(j), j, T(j)))
        if not isvoid:
            o.append("  unsigned char r[2][sizeof(R%d)] __attribute__((aligned(16)));\n" % i)
        o.append("  for(v = 0; v < %d; v++) {\n    int k; easyMock_init(); nrec = 0;\n" % NV)
        for j, (t, n) in enumerate(f.params):
            eq, fl = eqfill(t)
            o.append("    psz[%d] = sizeof(%s); for(k = 0; k < 2; k++) { %s(a%d[k], sizeof(%s), (v + %d + 2 * k) %% 6); %s(b%d[k], sizeof(%s), (v + %d + 1 + 2 * k) %% 6); }\n"
                     % (j, T(j), fl, j, T(j), j, fl, j, T(j), j))
        if not isvoid:
            eq, fl = eqfill(f.ret)
            o.append("    for(k = 0; k < 2; k++) %s(r[k], sizeof(R%d), (v + 3 + k) %% 6);\n" % (fl, i))
        args = ["*(%s *)a%d[k]" % (T(j), j) for j in range(len(f.params))]
        if not isvoid:
            args.append("*(R%d *)r[k]" % i)
        args += ["m%d" % j for j in range(len(f.params))]
        o.append("    for(k = 0; k < 2; k++) { %s_ExpectAndReturn(%s); }\n" % (f.name, ", ".join(args)))
        call = "%s(%s)" % (f.name, ", ".join("*(%s *)b%d[k]" % (T(j), j) for j in range(len(f.params))))
        o.append("    for(k = 0; k < 2; k++) {\n      nrec = 0; memset(actv, 0x5a, sizeof actv); memset(expv, 0x5a, sizeof expv);\n")
        if isvoid:
            o.append("      %s;\n" % call)
        else:
            eq, fl = eqfill(f.ret)
            o.append("      { R%d rv = %s; if(!%s(&rv, r[k], sizeof(R%d))) fail(\"return\", v, k); }\n" % (i, call, eq, i))
        o.append("      if(nrec != %d) fail(\"matchers\", nrec, %d);\n" % (len(f.params), len(f.params)))
        for j, (t, n) in enumerate(f.params):
            eq, fl = eqfill(t)
            o.append("      if(order[%d] != %d) fail(\"order\", %d, order[%d]);\n" % (j, j, j, j))
            o.append("      if(!%s(actv[%d], b%d[k], sizeof(%s))) fail(\"actual\", %d, v);\n" % (eq, j, j, T(j), j))
            o.append("      if(!%s(expv[%d], a%d[k], sizeof(%s))) fail(\"expected\", %d, v);\n" % (eq, j, j, T(j), j))
            if n:
                o.append("      if(strcmp(pname[%d], \"%s\")) fail(\"name\", %d, v);\n" % (j, n, j))
        o.append("    }\n    if(!easyMock_check()) fail(\"check\", v, 0);\n  }\n}\n")
    o.append("int main(void) { easyMock_init();\n")
    for i in range(len(fns)):
        o.append("  drv_t%d();\n" % i)
    o.append("  printf(\"END %d\\n\", bad); return 0; }\n")
    return "".join(o)


def header_text(fns, guard="HDR", prelude=PRELUDE, footer=""):
    return "#ifndef %s\n#define %s\n%s\n%s\n%s#endif\n" % (guard, guard, prelude, "\n".join(f.proto() for f in fns), footer)


class Lab:
    """Runs batches of functions; a failing batch is split until the failing functions are alone."""
    CC = ["gcc", "-std=gnu11", "-w", "-O0", "-g0"]

    def __init__(self, c, gen, fw, args=(), drv=driver, prelude=PRELUDE, hname="h.h"):
        self.c, self.gen, self.fw, self.args, self.drv, self.prelude, self.hname = c, gen, fw, list(args), drv, prelude, hname
        self.n = 0
        self.headers = 0
        self.nfail = 0
        import threading
        self.l = threading.Lock()

    def newdir(self):
        with self.l:
            self.n += 1
            d = os.path.join(self.c.work, "b%d" % self.n)
        os.makedirs(d)
        return d

    def stage(self, fns, d):
        """returns None or (stage, text)"""
        h = os.path.join(d, self.hname)
        write(h, header_text(fns, prelude=self.prelude))
        rc, out = generate(self.gen, h, d, self.args)
        self.headers += 1
        if rc != 0:
            return "generate", "exit %s: %s" % (rc, out[-600:])
        base = os.path.splitext(self.hname)[0]
        rc, out = sh(self.CC + ["-c", "-I" + d, "-I" + FWINC, d + "/easyMock_%s.c" % base, "-o", d + "/m.o"])
        if rc != 0:
            return "compile", "\n".join([l for l in out.splitlines() if "error" in l][:4])
        write(d + "/d.c", self.drv(fns, self.hname))
        rc, out = sh(self.CC + ["-Werror=incompatible-pointer-types", "-Werror=int-conversion", "-Werror=implicit-function-declaration", "-I" + d, "-I" + FWINC,
                               d + "/d.c", d + "/m.o", "-o", d + "/d", self.fw, "-Wl,-rpath," + os.path.dirname(self.fw)])
        if rc != 0:
            return "use", "\n".join([l for l in out.splitlines() if "error" in l or "undefined" in l][:4])
        rc, out = sh([d + "/d"], timeout=60)
        if rc != 0 or not out.rstrip().endswith("END 0"):
            return "run", "exit %s\n%s" % (rc, "\n".join([l for l in out.splitlines() if l.startswith("BAD")][:6]) or out[-300:])
        return None

    def batch(self, fns):
        d = self.newdir()
        try:
            r = self.stage(fns, d)
            if r is None:
                return []
            if len(fns) > 1 and self.nfail > 150:
                # enough single failures were isolated already: report the rest unsplit
                return [(Fn("+".join(f.name for f in fns), VOID, [], key="batch:" + ",".join(f.key for f in fns[:4])), r, {self.hname: header_text(fns, prelude=self.prelude)})]
            if len(fns) == 1:
                self.nfail += 1
                files = {}
                for n in (self.hname, "d.c"):
                    if os.path.exists(d + "/" + n):
                        files[n] = open(d + "/" + n).read()
                return [(fns[0], r, files)]
        finally:
            shutil.rmtree(d, True)
        m = len(fns) // 2
        res = self.batch(fns[:m]) + self.batch(fns[m:])
        if not res:
            return [(Fn("+".join(f.name for f in fns), VOID, [], key="together:" + ",".join(f.key for f in fns)), r, {self.hname: header_text(fns, prelude=self.prelude)})]
        return res

    def run(self, fns, size=32):
        # equal names cannot be in one header
        todo = [fns[i:i + size] for i in range(0, len(fns), size)]
        bad = [x for r in pmap(self.batch, todo) for x in r]
        for f, (stage, text), files in bad:
            self.c.violation("%s:%s" % (stage, f.key), "%s fails at %s: %s" % (f.proto() if f.ret else f.key, stage, text), files,
                             script="d=$(mktemp -d); cp \"$(dirname \"$0\")\"/* $d; %s -i $d/%s -o $d %s && gcc -std=gnu11 -I$d -I%s -c $d/easyMock_*.c -o $d/m.o && gcc -std=gnu11 -w -I$d -I%s $d/d.c $d/m.o -o $d/d %s -Wl,-rpath,%s && $d/d" % (
                                 self.gen, self.hname, " ".join(self.args), FWINC, FWINC, self.fw, os.path.dirname(self.fw)))
        return bad
