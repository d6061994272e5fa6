"""G05: a generated comparator rejects exactly the values that differ."""
import itertools, json, threading
import embuild
from emcheck import *
from gen_types import MEMBERS, PRELUDE, SMALL, Case, M, composite

# every leaf of a type, with its path, from the debug information of the compiler
GDBPY = r"""
import gdb, json
def leaves(t, path, out):
    t = t.strip_typedefs()
    if t.code in (gdb.TYPE_CODE_STRUCT, gdb.TYPE_CODE_UNION):
        for f in t.fields():
            if not f.name:
                leaves(f.type, path, out)
            else:
                leaves(f.type, path + [f.name], out)
    elif t.code == gdb.TYPE_CODE_ARRAY:
        lo, hi = t.range()
        for i in range(lo, hi + 1):
            d = dims(t.target())
            # the elements of an array of arrays are counted in memory order
            m = 1
            for x in d:
                m *= x
            leaves(t.target(), path[:-1] + [path[-1] + "[%d:%d]" % (i, i * m)], out)
    else:
        kind = "b" if t.code == gdb.TYPE_CODE_BOOL else "o"
        out.append([path, kind])
def dims(t):
    t = t.strip_typedefs()
    if t.code != gdb.TYPE_CODE_ARRAY:
        return []
    return [t.range()[1] + 1] + dims(t.target())
r = {}
for i in range(N):
    o = []
    leaves(gdb.lookup_global_symbol("v%d" % i).type.target(), [], o)
    r[i] = o
print("JSON" + json.dumps(r))
"""

DRV = r"""
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
struct leaf { const char *path, *prefix, *last; int idx; int isbool; };
static unsigned long nstates; static int nbad;
/* the parameter path of a message, without what is between brackets */
static void strip(const char *s, unsigned long n, char *out) { int depth = 0; while(n--) { if(*s == '[') depth++; if(!depth) *out++ = *s; if(*s == ']') depth--; s++; } *out = 0; }
static int named(const char *m, const struct leaf *l) {
  char par[300], fld[300], buf[300]; const char *q; int idx = -1;
  if(strncmp(m, "Parameter '", 11) || !(q = strchr(m + 11, '\''))) return 0;
  strip(m + 11, (unsigned long)(q - m - 11), par);
  if(!(q = strstr(m, "has field"))) return 0;
  q = strchr(q, '\'') + 1;
  strip(q, strcspn(q, "'"), fld);
  if(strstr(m, "at idx == ")) idx = atoi(strstr(m, "at idx == ") + 10);
  snprintf(buf, sizeof buf, "p%s", l->prefix);
  return !strcmp(par, buf) && !strcmp(fld, l->last) && idx == l->idx;
}
#define BAD(...) do { if(nbad++ < 6) { printf("BAD " __VA_ARGS__); printf("\n"); } } while(0)
typedef int (*cmpf)(const void *, const void *, const char *, char *);
static void check(int id, unsigned long size, int n, const struct leaf *ls, int (*df)(int, const void *, const void *), const void *(*at)(int, const void *), cmpf cmp, cmpf deref, const unsigned char *A, const unsigned char *B, const char *what) {
  int k, any = 0, r, ok = 0; char m[2][512]; const void *pa = A, *pb = B;
  for(k = 0; k < n; k++) if(ls[k].isbool && (*(const unsigned char *)at(k, A) > 1 || *(const unsigned char *)at(k, B) > 1)) return;
  nstates++;
  memset(m, 0, sizeof m);
  for(k = 0; k < n; k++) any |= df(k, A, B);
  r = cmp(A, B, "p", m[0]);
  if((r != 0) != any) { for(k = 0; k < n; k++) if(df(k, A, B)) break; BAD("%d %s: %s although %s%s", id, what, r ? "rejected" : "accepted", k < n ? "they differ in " : "the members are equal", k < n ? ls[k].path : ""); return; }
  if(r) for(k = 0; k < n && !ok; k++) ok = df(k, A, B) && named(m[0], &ls[k]);
  if(r && !ok) { for(k = 0; k < n; k++) if(df(k, A, B)) break; BAD("%d %s: differs in %s, reported: %s", id, what, ls[k].path, m[0]); }
  if(!r && m[0][0]) BAD("%d %s: accepted with a message: %s", id, what, m[0]);
  if(deref(&pa, &pb, "p", m[1]) != r || strcmp(m[0], m[1])) BAD("%d %s: the dereferencing comparator says %s", id, what, m[1]);
}
static void all(int id, unsigned long size, int n, const struct leaf *ls, int (*df)(int, const void *, const void *), const void *(*at)(int, const void *), cmpf cmp, cmpf deref) {
  unsigned char *A = (unsigned char *)aligned_alloc(64, (size + 127) / 64 * 64), *B = (unsigned char *)aligned_alloc(64, (size + 127) / 64 * 64);
  static const unsigned char base[] = {0, 1, 0x80, 0xff}; unsigned long x, b, y; char what[100];
  for(b = 0; b < sizeof base; b++) {
    memset(A, base[b], size); memset(B, base[b], size);
    sprintf(what, "all bytes %02x", base[b]);
    check(id, size, n, ls, df, at, cmp, deref, A, B, what);
    for(x = 0; x < size * 8; x++) {
      B[x / 8] ^= (unsigned char)(1 << x % 8);
      sprintf(what, "bytes %02x, bit %lu of byte %lu", base[b], x % 8, x / 8);
      check(id, size, n, ls, df, at, cmp, deref, A, B, what);
      check(id, size, n, ls, df, at, cmp, deref, B, A, what);
      /* the same with a second difference */
      for(y = x + 1; y < size * 8 && b == 0 && PAIRS; y += 1) {
        B[y / 8] ^= (unsigned char)(1 << y % 8);
        sprintf(what, "bit %lu of byte %lu and %lu of %lu", x % 8, x / 8, y % 8, y / 8);
        check(id, size, n, ls, df, at, cmp, deref, A, B, what);
        B[y / 8] ^= (unsigned char)(1 << y % 8);
      }
      B[x / 8] ^= (unsigned char)(1 << x % 8);
    }
  }
  free(A); free(B);
}
"""


def splitidx(s):
    m = re.match(r"(\w+)((?:\[\d+:\d+\])*)$", s)
    flat = [int(x) for x in re.findall(r":(\d+)", m.group(2))]
    return m.group(1), sum(flat) if flat else -1


def expr(path):
    return re.sub(r":\d+", "", ".".join(path))


class CLab:
    def __init__(self, c, gen, fw, pairs, cpp=False):
        self.c, self.gen, self.fw, self.pairs, self.cpp = c, gen, fw, pairs, cpp
        self.CC = ["g++", "-std=gnu++17", "-w", "-O0", "-fpermissive"] if cpp else ["gcc", "-std=gnu11", "-w", "-O0"]
        self.h, self.x = "h.h", ("cpp" if cpp else "c")
        self.n = self.headers = self.states = self.nfail = self.comparators = 0
        self.l = threading.Lock()

    def stage(self, cases, d):
        cs = [c.at(i) for i, c in enumerate(cases)]
        h = "#ifndef H_H\n#define H_H\n%s%s%s\n#endif\n" % (PRELUDE, "".join(c.text for c in cs), "\n".join(f for c in cs for f in c.fns))
        if self.cpp:
            h = h.replace("_Bool", "bool")
        write(d + "/" + self.h, h)
        write(d + "/v." + self.x, '#include "%s"\n' % self.h + "".join("%s *v%d;\n" % (c.tname, i) for i, c in enumerate(cs)))
        rc, out = sh(self.CC + ["-g", "-c", d + "/v." + self.x, "-o", d + "/v.o"])
        if rc != 0:
            return "invalid", "\n".join([l for l in out.splitlines() if "error" in l][:3])
        write(d + "/g.py", "N = %d\n" % len(cs) + GDBPY)
        rc, out = sh(["gdb", "-nx", "-batch", d + "/v.o", "-x", d + "/g.py"])
        m = re.search(r"JSON(.*)", out)
        if not m:
            return "invalid", "gdb: " + out[-200:]
        lv = json.loads(m.group(1))
        rc, out = sh([self.gen, "-i", d + "/" + self.h, "-o", d + "/o", "--generate-comparator-of", "EasyMock_all_comparators"] + (["--mock-cpp"] if self.cpp else []))
        with self.l:
            self.headers += 1
        if rc != 0:
            return "generate", "exit %s: %s" % (rc, out[-300:])
        rc, out = sh(self.CC + ["-Werror=format", "-Wno-format-extra-args", "-c", "-I" + FWINC, "-I" + d, "-I" + d + "/o", d + "/o/easyMock_h." + self.x, "-o", d + "/m.o"])
        if rc != 0:
            return "compile", "\n".join([l.replace(d, "") for l in out.splitlines() if "error" in l][:3])
        hdr = open(d + "/o/easyMock_h.h").read()
        o = ["#define PAIRS %d\n" % self.pairs, '#include "easyMock_h.h"\n', DRV]
        for i, c in enumerate(cs):
            # gdb counts one element in some flexible arrays
            ls = [l for l in lv[str(i)] if not ("flexible" in c.key and l[0][0].startswith("m1["))]
            t = re.search(r"\bT%d\b" % i, c.text)
            cand = ["%s_T%d" % (k, i) for k in ("struct", "union")] + ["T%d_t" % i, "T%d" % i] + [c.tname.split()[-1]]
            found = [n for n in dict.fromkeys(cand) if re.search(r"\bcmp_%s\(" % re.escape(n), hdr)]
            if not found:
                return "missing", "no comparator for %s" % c.tname
            n = found[0]
            if not re.search(r"\bcmp_deref_ptr_%s\(" % re.escape(n), hdr):
                return "missing", "no dereferencing comparator for %s" % c.tname
            o.append("static const struct leaf l%d[] = {" % i)
            for path, kind in ls:
                last, idx = splitidx(path[-1])
                o.append('{"%s","%s","%s",%d,%d},' % (expr(path), "".join("." + splitidx(p)[0] for p in path[:-1]), last, idx, kind == "b"))
            o.append('{0,0,0,0,0}};\nstatic int d%d(int k, const void *pa, const void *pb) { const %s *a = (const %s *)pa, *b = (const %s *)pb; switch(k) {' % (i, c.tname, c.tname, c.tname))
            for k, (path, kind) in enumerate(ls):
                o.append(" case %d: return a->%s != b->%s;" % (k, expr(path), expr(path)))
            o.append(" } return 0; }\nstatic const void *a%d(int k, const void *pa) { const %s *a = (const %s *)pa; switch(k) {" % (i, c.tname, c.tname))
            for k, (path, kind) in enumerate(ls):
                if kind == "b" and "bit" not in c.key:
                    o.append(" case %d: return (const void *)&a->%s;" % (k, expr(path)))
            o.append(" } return \"\"; }\nstatic void r%d(void) { all(%d, sizeof(%s), %d, l%d, d%d, a%d, cmp_%s, cmp_deref_ptr_%s); }\n" % (i, i, c.tname, len(ls), i, i, i, n, n))
        o.append("int main(void) {" + "".join(" r%d();" % i for i in range(len(cs))) + ' printf("N %lu\\n", nstates); return nbad ? 1 : 0; }\n')
        write(d + "/d." + self.x, "".join(o))
        rc, out = sh(self.CC + ["-I" + FWINC, "-I" + d, "-I" + d + "/o", d + "/d." + self.x, d + "/m.o", self.fw, "-Wl,-rpath," + os.path.dirname(self.fw), "-o", d + "/d"])
        if rc != 0:
            return "driver", "\n".join([l.replace(d, "") for l in out.splitlines() if "error" in l or "undefined" in l][:3])
        rc, out = sh([d + "/d"])
        m = re.search(r"^N (\d+)", out, re.M)
        if m:
            with self.l:
                self.states += int(m.group(1))
                self.comparators += len(cs)
        if rc != 0:
            return "compare", "\n".join([l for l in out.splitlines() if l.startswith("BAD")][:3]) or "exit %s: %s" % (rc, out[-200:])
        return None

    def batch(self, cases):
        with self.l:
            self.n += 1
            d = "%s/t%d" % (self.c.work, self.n)
        os.makedirs(d + "/o")
        try:
            r = self.stage(cases, d)
            if r is None:
                return []
            if len(cases) == 1:
                self.nfail += 1
                return [(cases[0], r, {n: open(d + "/" + n).read() for n in (self.h, "d." + self.x, "o/easyMock_h." + self.x) if os.path.exists(d + "/" + n)})]
            if self.nfail > 300:
                return [(Case("batch:" + ",".join(x.key for x in cases[:4]), "", []), r, {"h.h": open(d + "/" + self.h).read()})]
            hh = open(d + "/" + self.h).read()
        finally:
            shutil.rmtree(d, True)
        m = len(cases) // 2
        return self.batch(cases[:m]) + self.batch(cases[m:]) or [(Case("together:" + ",".join(x.key for x in cases[:6]), "", []), r, {"h.h": hh})]

    def run(self, cases, size=12):
        bad = [x for r in pmap(self.batch, [cases[i:i + size] for i in range(0, len(cases), size)]) for x in r]
        inv = 0
        for case, (stage, text), files in bad:
            if stage == "invalid":
                inv += 1
                if os.environ.get("EM_ALL"):
                    print("INVALID", case.key, text)
                continue
            self.c.violation("%s%s:%s" % ("cpp:" if self.cpp else "", stage, case.key), text, {k.replace("/", "_"): v for k, v in files.items()})
        return inv


def g05_cases(quick):
    cs = []
    key = {m.key: m for m in MEMBERS}
    i, ch = key["int"], key["char"]
    for m in MEMBERS:
        for kw in ("struct", "union"):
            if m.last and kw == "union":
                continue
            cs.append(composite([i, m] if m.last else [m], kw))
        if not m.last:
            cs.append(composite([ch, m, key["short"]], "struct", use="val"))
        if "struct T@" not in m.text and not m.last:
            cs.append(composite([m, i], form="anon", use="cptr"))
        if not quick:
            cs.append(composite([i, m], form="both", use="both"))
    small = [key[k] for k in SMALL]
    for a, b in itertools.product(small, repeat=2):
        cs.append(composite([a, b], use="ptr"))
        if not quick:
            cs.append(composite([a, b], kw="union", use="val"))
    for use in ("ptr", "cptr", "val", "both", "arr", "pp"):
        for form in ("tag", "anon", "both", "bothtag", "same", "sametag", "ahead"):
            for kw in ("struct", "union"):
                for m in (small[::4] if quick else small):
                    if form == "anon" and "struct T@" in m.text:
                        continue
                    cs.append(composite([m, i], kw, form, use))
    return cs


SELECT = """struct A { int a; char b; };
struct union_A { short c; };
typedef struct { int d; long e; } struct_B;
union B { int f; char g; };
typedef struct C { char h; } C;
typedef struct { struct A i; int j; } D;
"""
SELFN = ["int fa(const struct A *p);", "void fb(struct union_A p);", "int fc(struct_B *p, int n);", "union B *fd(int n, union B *p);", "C fe(C p);", "void ff(D **p);"]
NAMES = {"A": "struct_A", "union_A": "struct_union_A", "struct_B": "struct_B", "B": "union_B", "C": "C", "D": "D"}


def selection(c, gen):
    """exactly the comparators that were asked for"""
    asks = list(NAMES) + ["Other", "a", "EasyMock_all_comparators"]

    def one(job):
        n, sub, fns = job
        d = "%s/s%d" % (c.work, n)
        os.makedirs(d + "/o")
        try:
            write(d + "/h.h", SELECT + "\n".join(fns) + "\n")
            args = [a for x in sub for a in ("--generate-comparator-of", x)]
            rc, out = sh([gen, "-i", d + "/h.h", "-o", d + "/o"] + args)
            if rc != 0:
                return job, "exit %s: %s" % (rc, out[-200:])
            used = {"A"} if "fa" in "".join(fns) else set()
            hdr, src = open(d + "/o/easyMock_h.h").read(), open(d + "/o/easyMock_h.c").read()
            alltypes = "EasyMock_all_comparators" in sub
            have = [x for x in NAMES if any(re.search(r"\b%s\b" % x, f.split("(")[1]) for f in fns)]
            want = {NAMES[x] for x in have if x in sub or alltypes}
            # a type only contained in another is also compared when both are asked for
            opt = {NAMES["A"]} if "D" in have and (alltypes or {"A", "D"} <= set(sub)) else set()
            for what, t in (("declared", hdr), ("defined", src)):
                got = re.findall(r"\bint cmp_(\w+)\(const void", t)
                plain = [g for g in got if not g.startswith("deref_ptr_")]
                deref = [g[10:] for g in got if g.startswith("deref_ptr_")]
                if set(plain) != want | opt or set(deref) != want | opt or len(set(got)) != len(got):
                    return job, "%s comparators %s instead of %s" % (what, sorted(got), sorted(want | opt))
            return None
        finally:
            shutil.rmtree(d, True)
    jobs = []
    for r in range(len(asks) + 1):
        for sub in itertools.combinations(asks, r):
            jobs.append((len(jobs), sub, SELFN))
            if c.quick and r not in (0, 1, len(asks)):
                continue
            for m in range(len(SELFN)):
                jobs.append((len(jobs), sub, SELFN[:m] + SELFN[m + 1:]))
                jobs.append((len(jobs), sub, SELFN[m:] + SELFN[:m]))
                jobs.append((len(jobs), sub[::-1], [SELFN[m]]))
    for x in pmap(one, jobs):
        if x:
            (n, sub, fns), text = x
            c.violation("select:%s:%s" % ("+".join(sub), ",".join(f.split("(")[0].split()[-1].strip("*") for f in fns)), text, {"h.h": SELECT + "\n".join(fns)})
    return len(jobs)


# members whose comparators are known not to work in C++ mode; each one is kept in one case
CPP_FOUND = ("nested named", "array of named", "nested named used twice")


def in_cpp(x):
    # what is passed by value through a C++ mock is not for this check
    if x.key.split(",")[2].split(":")[0] in ("val", "both") or "flexible" in x.key:
        return False
    return not any(re.search(r"[:+]%s($|\+)" % f.replace(" ", "_"), x.key) for f in CPP_FOUND)


def G05(c):
    gen, fw = embuild.generator(), embuild.framework("plain")
    cs = g05_cases(c.quick)
    lab = CLab(c, gen, fw, 0 if c.quick else 1)
    inv = lab.run(cs)
    cc = [x for k, x in enumerate(cs) if (not c.quick or k % 3 == 0) and in_cpp(x)]
    cc += [composite([m]) for m in MEMBERS if m.key in CPP_FOUND]
    lpp = CLab(c, gen, fw, 0, True)
    lpp.c, lpp.n = c, 1000000
    inv2 = lpp.run(cc)
    sel = selection(c, gen)
    c.add(states=lab.states + lpp.states + sel, transitions=(lab.states + lpp.states) * 2, traces_validated_against_impl=lab.comparators + lpp.comparators, headers=lab.headers + lpp.headers + sel, types=len(cs) - inv, types_in_cpp=len(cc) - inv2, selections=sel)
    for x in cs[:: max(1, len(cs) // 10)]:
        c.sample(x.key)
    c.assumptions += ["gdb's reading of gcc's debug information lists the members of a type, C's != decides whether a member differs", "flexible array members are not compared"]
