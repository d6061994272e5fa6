"""Checks of the generator as a tool: G01 (arguments), G06 (exit status), G07 (paths), G08 (determinism), G09 (parse errors)."""
import hashlib, itertools, random, signal
import embuild
from emcheck import *

HERE = os.path.dirname(os.path.abspath(__file__))


def run_parts(c, tool, argvs, timeout=800):
    """run a native explorer once per argument list, in parallel; returns outputs"""
    def one(a):
        return a, sh([tool] + [str(x) for x in a], timeout=timeout)
    return pmap(one, argvs)


# ---------------------------------------------------------------- G01
OPT_H = """#include "inc.h"
#ifdef EXTRA
int extra_fun(int a);
#endif
#ifdef SECOND
int second_fun(int a);
#endif
struct SI { int a; int b; };
struct SK { int c; int d; };
struct ST { struct SK inner; int e; };
int f1(struct SI *p);
int f2(int a, const char *fmt, ...) __attribute__((format(printf, 2, 3))) __attribute__((cold));
int f3(struct ST s);
int f4(struct SK s);
"""
INC_H = "int fi(int a);\n"
CPP_MARK = "namespace EasyMock"


def mocked(txt):
    return set(re.findall(r"\b(\w+)_ExpectAndReturn\(", txt)) | set(re.findall(r"namespace (\w+)\s*\{\s*void ExpectAndReturn", txt))


def outputs(d, base="h"):
    r = {}
    for n in sorted(os.listdir(d)):
        if n.startswith("easyMock_" + base + "."):
            r[n] = open(os.path.join(d, n), errors="replace").read()
    return r


OPTS = [("types", ["--generate-types"]), ("incl", ["--generate-included-functions"]), ("only1", ["--mock-only", "f1"]), ("only3", ["--mock-only", "f3"]), ("ign", ["--ignore-generation-of", "f4"]),
        ("ign2", ["--ignore-generation-of", "f3"]), ("field", ["--ignore-field-generation-of", "SI"]), ("cmp", ["--generate-comparator-of", "SK"]), ("cmp2", ["--generate-comparator-of", "SI"]),
        ("attr", ["--generate-attribute", "format"]), ("attr2", ["--generate-attribute", "cold"]), ("def", ["-DEXTRA"]), ("def2", ["-DSECOND"])]


def effects(on, out):
    """what must be visible for a set of options; returns the list of differences"""
    h, s = out.get("easyMock_h.h", ""), out.get("easyMock_h.c", "")
    bad = []
    fns = {"f1", "f2", "f3", "f4"} | ({"extra_fun"} if "def" in on else set()) | ({"second_fun"} if "def2" in on else set()) | ({"fi"} if "incl" in on else set())
    only = {x for o, x in (("only1", "f1"), ("only3", "f3")) if o in on}
    if only:
        fns &= only
    fns -= {x for o, x in (("ign", "f4"), ("ign2", "f3")) if o in on}
    got = mocked(h)
    if got != fns:
        bad.append("mocked %s instead of %s" % (sorted(got), sorted(fns)))
    if ('#include <h.h>' in h or '#include "h.h"' in h) == ("types" in on):
        bad.append("original header included: %s" % ("types" in on))
    has_attr = {a for a in ("format", "cold") if re.search(r"__attribute__\s*\(\(\s*%s" % a, s)}
    want = {a for o, a in (("attr", "format"), ("attr2", "cold")) if o in on and "f2" in fns}
    if has_attr != want:
        bad.append("attributes %s instead of %s" % (sorted(has_attr), sorted(want)))
    # a comparator exists for requested types that mocked functions use
    used = set()
    if "f1" in fns:
        used.add("SI")
    if "f4" in fns:
        used.add("SK")
    gc = {t for t in ("SI", "SK", "ST") if (t != "SK" or "f4" in fns or "f3" not in fns) and re.search(r"\bcmp_(struct_)?%s\b" % t, s)}
    wc = {t for o, t in (("cmp", "SK"), ("cmp2", "SI")) if o in on} & used
    if gc != wc:
        bad.append("comparators %s instead of %s" % (sorted(gc), sorted(wc)))
    if "types" in on and "f1" in fns:
        body = re.search(r"struct SI\s*\{(.*?)\}", h, re.S)
        if (body is not None and re.search(r"\bint\s+a\b", body.group(1)) is not None) == ("field" in on):
            bad.append("fields of SI")
    return bad


def G01(c):
    gen = embuild.generator()
    tool = embuild.gen_tool("cmdline", HERE + "/gt/cmdline.cpp")
    d = c.work + "/cl"
    for x in ("out", "sub/sub2/out2", "sub/out2"):
        os.makedirs(d + "/" + x)
    for x in ("h.h", "sub/h2.h"):
        write(d + "/" + x, "int f(int);\n")
    os.symlink("loop", d + "/loop")
    np = 8
    jobs = []
    for mode, depth in (("plain", 4 if c.quick else 5), ("base", 3 if c.quick else 4), ("rel", 3 if c.quick else 4), ("long", 0)):
        jobs += [(mode, depth, d, p, np if mode != "long" else 1) for p in range(np if mode != "long" else 1)]
    runs = 0
    for a, (rc, out) in run_parts(c, tool, jobs):
        m = re.search(r"RUNS (\d+) OPT (\d+) ERR (\d+) HELP (\d+) BAD (\d+)", out)
        for l in [l for l in out.splitlines() if l.startswith("BAD ")]:
            args, why = l[4:].rsplit(" | ", 1) if " | " in l else (l[4:], "")
            c.violation("args:" + args.replace(" ", "_"), "%s: %s" % (args, why), script="cd %s && %s %s" % (VERIF, tool, " ".join(map(str, a))))
        if rc != 0 or not m:
            c.violation("crash:%s" % "-".join(map(str, a[:2] + a[3:])), "argument explorer ended with %s: %s" % (rc, out[-300:]))
            continue
        v = list(map(int, m.groups()))
        runs += v[0]
        c.add(accepted_lists=v[1], refused_lists=v[2], help_lists=v[3])
    c.add(states=runs, transitions=runs)

    # the real tool: every option set, in rotations and around the required options: each option has its effect, whatever the position
    w = c.work + "/real"
    write(w + "/h.h", OPT_H)
    write(w + "/inc.h", INC_H)
    sets = []
    n = len(OPTS)
    for r in range(n + 1):
        for s in itertools.combinations(range(n), r):
            if c.quick and 3 < r < n - 1:
                continue
            sets.append(s)

    def one(job):
        k, s = job
        o = w + "/o%d" % k
        os.makedirs(o)
        order = list(s[k % max(1, len(s)):] + s[:k % max(1, len(s))])
        if k % 2:
            order.reverse()
        groups = [OPTS[i][1] for i in order]
        pos = k % (len(groups) + 1)
        pos2 = (k // 3) % (len(groups) + 2)
        groups.insert(pos, ["-i", w + "/h.h"])
        groups.insert(pos2, ["-o", o])
        args = [x for g in groups for x in g]
        rc, out = sh([gen] + args)
        bad = ["exit %s: %s" % (rc, out[-200:])] if rc != 0 else effects({OPTS[i][0] for i in s}, outputs(o))
        shutil.rmtree(o, True)
        if bad:
            c.violation("effect:" + "+".join(OPTS[i][0] for i in s), "%s: %s" % (" ".join(args), "; ".join(bad)), {"h.h": OPT_H, "inc.h": INC_H})
    pmap(one, list(enumerate(sets)))
    # exit status and nothing written for refused lists
    al = [["-i", w + "/h.h"], ["-o", w + "/eo"], ["-i"], ["-o"], ["--mock-only"], ["--cwd"], ["-i", w + "/nofile"], ["-o", w + "/nodir"], ["-h"], ["--help"], ["--generate-types"], ["--generate-attribute"],
          ["--ignore-generation-of"], ["--ignore-field-generation-of"], ["--generate-comparator-of"], ["--cwd", w], ["--cwd", w + "/nodir"], ["-i", w], ["-o", w + "/h.h"]]
    os.makedirs(w + "/eo")
    lists = [x for r in range(3 if c.quick else 4) for x in itertools.product(al, repeat=r)]

    def refuse(l):
        flat = [x for g in l for x in g]
        # reading order decides: help, or a missing value / repetition, or paths
        exp, seen, i = None, {}, 0
        while i < len(flat) and exp is None:
            a = flat[i]
            if a in ("-h", "--help"):
                exp = "help"
            elif a.startswith("-") and a != "--generate-types":
                if a in ("-i", "-o", "--cwd") and a in seen:
                    exp = "error"
                elif i + 1 >= len(flat) or flat[i + 1].startswith("-"):
                    exp = "error"
                else:
                    seen[a] = flat[i + 1]
                    i += 1
            i += 1
        if exp is None:
            exp = "ok" if seen.get("-i") == w + "/h.h" and seen.get("-o") == w + "/eo" and seen.get("--cwd") in (None, w) else "error"
        if exp == "ok":
            return
        rc, out = sh([gen] + flat)
        bad = None
        if exp == "help" and (rc != 0 or "OPTIONS" not in out):
            bad = "help: exit %s" % rc
        if exp == "error" and (rc == 0 or (isinstance(rc, int) and rc < 0) or rc == "timeout" or not out.strip()):
            bad = "not refused properly: exit %s, output '%s'" % (rc, out[-200:])
        if bad:
            c.violation("exit:" + "_".join(flat), "%s: %s" % (" ".join(flat), bad))
    pmap(refuse, lists)
    if os.listdir(w + "/eo"):
        c.violation("exit:written", "a refused argument list wrote %s" % os.listdir(w + "/eo"))
    c.add(traces_validated_against_impl=len(sets) + len(lists))
    c.sample("all lists over 29 arguments to length %d" % (4 if c.quick else 5))
    c.sample("-i and -o inserted at every pair of positions of all lists to length %d" % (3 if c.quick else 4))
    c.sample("option sets on the real tool: %d" % len(sets))
    c.assumptions += ["argument strings outside the alphabet of checks/gt/cmdline.cpp behave like the unrecognised or value strings in it"]


# ---------------------------------------------------------------- G06
G06_HEADERS = {
    "small": "int f(int a);\n",
    "none": "struct S { int a; };\n",
    "mid": "struct S { int a; char b[9]; };\n" + "".join("int f%d(struct S *a, const char *b, int c%d);\n" % (i, i) for i in range(4)),
}


def shim(c, name):
    out = c.work + "/" + name + ".so"
    rc, o = sh(["gcc", "-O0", "-U_FORTIFY_SOURCE", "-fno-builtin", "-shared", "-fPIC", "-w", HERE + "/gt/" + name + ".c", "-o", out, "-ldl"])
    if rc != 0:
        raise embuild.BuildError(o)
    return out


def G06(c):
    import resource
    gen = embuild.generator()
    so = shim(c, "iofault")
    variants = [("small", []), ("small", ["--generate-types"]), ("mid", []), ("none", []), ("small", ["--mock-cpp"])]
    runs = [0, 0]

    def judge(key, what, rc, out, d, ref, text, fault_visible=None):
        runs[0] += 1
        got = outputs(d) if os.path.isdir(d) else {}
        complete = got == ref
        bad = None
        if rc == 0 and not complete:
            bad = "exit status 0 but %s" % ", ".join("%s has %s of %d bytes" % (n, len(got[n]) if n in got else "no", len(ref[n])) for n in ref if got.get(n) != ref[n])
        elif rc == "timeout" or (isinstance(rc, int) and rc < 0):
            bad = "ended with %s" % rc
        elif rc != 0 and not out.strip():
            bad = "failed with status %s without a report" % rc
        elif fault_visible and rc == 0:
            bad = "exit status 0 although %s" % fault_visible
        elif fault_visible is False and rc != 0:
            bad = "exit status %s although nothing failed: %s" % (rc, out[-200:])
        if rc != 0 and not bad:
            runs[1] += 1
        if bad:
            c.violation(key, "%s: %s" % (what, bad), {"h.h": text})

    for vi, (hn, args) in enumerate(variants):
        text = G06_HEADERS[hn]
        w = c.work + "/v%d" % vi
        write(w + "/h.h", text)
        rc, out = generate(gen, w + "/h.h", w + "/ref", args)
        ref = outputs(w + "/ref")
        vk = hn + "".join(args)
        if rc != 0 or len(ref) != 2:
            c.violation("plain:" + vk, "exit %s, files %s" % (rc, sorted(ref)), {"h.h": text})
            continue

        def rundir(name):
            d = w + "/r" + name
            os.makedirs(d)
            return d

        # A: the file size limit at every byte count
        top = max(len(x) for x in ref.values())
        limits = range(0, top + 3)
        if c.quick:
            keep = {x + y for n in ref.values() for x in (0, len(n)) for y in range(-3, 4)} | {x + y for x in range(0, top, 4096) for y in range(-3, 4)} | set(range(0, top, 211 if vi else 53))
            limits = [x for x in limits if x in keep]
        elif vi > 1:
            limits = [x for x in limits if x % 5 == 0 or x > top - 8]

        def lim(n):
            d = rundir("L%d" % n)

            def pre():
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (n, n))
            # the output is read through a pipe, so the limit only meets the generated files
            rc, out = sh([gen, "-i", w + "/h.h", "-o", d] + args, preexec_fn=pre)
            judge("limit:%s:%d" % (vk, n), "files limited to %d bytes" % n, rc, out, d, ref, text, "a file was cut" if n < top else False)
            shutil.rmtree(d, True)
        pmap(lim, limits)

        # B: every single operation on the output files fails
        d = rundir("C")
        log = w + "/log"
        env = dict(os.environ, LD_PRELOAD=so, EMF_DIR=d, EMF_LOG=log)
        sh([gen, "-i", w + "/h.h", "-o", d] + args, env=env)
        ops = open(log).read().split() if os.path.exists(log) else []
        shutil.rmtree(d, True)
        c.add(operations=len(ops))
        if len(ops) < 4:
            c.violation("ops:" + vk, "only %s seen on the output files" % ops)

        def fault(job):
            k, er, mode = job
            d = rundir("F%d_%d_%d" % job)
            env = dict(os.environ, LD_PRELOAD=so, EMF_DIR=d, EMF_K=str(k), EMF_ERR=str(er), EMF_MODE=str(mode))
            rc, out = sh([gen, "-i", w + "/h.h", "-o", d] + args, env=env)
            op = ops[k] if k < len(ops) else "past the last operation"
            harmless = (mode == 1 and op == "write") or k >= len(ops)   # a short write that can be continued, or no fault
            judge("fault:%s:%d:%s:%d:%d" % (vk, k, op, er, mode), "operation %d (%s) fails with errno %d" % (k, op, er), rc, out, d, ref, text, False if harmless else "operation %d (%s) failed" % (k, op))
            shutil.rmtree(d, True)
        pmap(fault, [(k, er, mode) for k in range(len(ops) + 1) for er in (28, 5, 122, 9) for mode in (0, 1, 2)])

        # C: the place of an output file is taken or leads nowhere
        names = sorted(ref)
        for n in names:
            for what in ("dir", "full", "dangling", "loop", "fulldir"):
                d = rundir("T" + n + what)
                p = d + "/" + n
                if what == "dir":
                    os.mkdir(p)
                elif what == "fulldir":
                    os.makedirs(p + "/x")
                elif what == "full":
                    os.symlink("/dev/full", p)
                elif what == "dangling":
                    os.symlink(d + "/no/where", p)
                else:
                    os.symlink(p, p)
                rc, out = sh([gen, "-i", w + "/h.h", "-o", d] + args)
                runs[0] += 1
                if rc == 0:
                    c.violation("place:%s:%s:%s" % (vk, n, what), "exit status 0 although %s could not be written (%s)" % (n, what), {"h.h": text})
                elif not isinstance(rc, int) or rc < 0:
                    c.violation("place:%s:%s:%s" % (vk, n, what), "ended with %s" % rc, {"h.h": text})
                shutil.rmtree(d, True)
        # D: whatever an earlier run left
        longer = {n: x + "\n// left over\n" * 5000 for n, x in ref.items()}
        olds = [{}, ref, longer, {n: "" for n in ref}, {n: x[:len(x) // 2] for n, x in ref.items()}, {n: "\0" * 100000 for n in ref}, {names[0]: longer[names[0]]}, {names[1]: longer[names[1]]},
                {names[0]: ref[names[1]], names[1]: ref[names[0]]}, {"easyMock_g.h": "x", "easyMock_h.hpp": "y"}]
        for k, old in enumerate(olds):
            for link in (0, 1, 2):
                d = rundir("O%d_%d" % (k, link))
                tgt = d
                if link == 1:   # the files are links to files elsewhere
                    os.makedirs(d + "_t")
                    tgt = d + "_t"
                for n, x in old.items():
                    write(tgt + "/" + n, x)
                    if link == 1:
                        os.symlink(tgt + "/" + n, d + "/" + n)
                    if link == 2:
                        os.chmod(d + "/" + n, 0o400)
                for rep in range(2):
                    rc, out = sh([gen, "-i", w + "/h.h", "-o", d] + args)
                    got = {n: x for n, x in outputs(d).items() if n in ref}
                    runs[0] += 1
                    if got != ref and rc == 0 or rc != 0 and os.geteuid() == 0:
                        c.violation("old:%s:%d:%d" % (vk, k, link), "files differ (exit %s) after an earlier run left something (case %d, kind %d, run %d)" % (rc, k, link, rep), {"h.h": text})
                if not old.get("easyMock_g.h") is None and open(d + "/easyMock_g.h").read() != "x":
                    c.violation("old:%s:other" % vk, "another mock's file was changed")
                shutil.rmtree(d, True)
                shutil.rmtree(d + "_t", True)
        # E: closed or full standard streams
        for k, pre in enumerate(("<&-", ">&-", "2>&-", "<&- >&-", ">&- 2>&-", "<&- >&- 2>&-", ">/dev/full", "2>/dev/full", ">/dev/full 2>/dev/full")):
            d = rundir("S%d" % k)
            rc, out = sh(["sh", "-c", '"$0" "$@" ' + pre, gen, "-i", w + "/h.h", "-o", d] + args)
            runs[0] += 1
            if rc == 0 and outputs(d) != ref:
                c.violation("streams:%s:%s" % (vk, pre.replace(" ", "_")), "exit status 0 but the files are wrong with %s" % pre, {"h.h": text})
            shutil.rmtree(d, True)
    c.add(states=runs[0], transitions=runs[0], traces_validated_against_impl=runs[0], refused_runs=runs[1])
    c.sample("operations failed one by one on small: fopen, fwrite, fclose of both files, errno ENOSPC/EIO/EDQUOT/EBADF, none/partial data written")
    c.assumptions += ["a failing file operation reports its error through the C library or system call that was made", "the size limit reaches the tool only through writes of the generated files"]


# ---------------------------------------------------------------- G07
def strip_comments(s):
    """remove comments outside string literals"""
    return re.sub(r'"(?:\\.|[^"\\])*"|//[^\n]*|/\*.*?\*/', lambda m: m.group(0) if m.group(0)[0] == '"' else " ", s, flags=re.S)


def canon(out):
    return {n: "\n".join(l.rstrip() for l in strip_comments(x).splitlines() if l.strip()) for n, x in out.items()}


G07_H = '#include "sib.h"\n#include "../up.h"\n#include <sys_dir.h>\n#define LOCAL_MAC 3\nstruct L { int a; SIB b; UP u; SYS s; };\nint f(struct L *p, SIB s, const char *x);\nUP g(int a[LOCAL_MAC]);\n'


def G07(c):
    gen, fw = embuild.generator(), embuild.framework("plain")
    runs = [0]
    dirs = ["d", "sp ace", "a.b", "d-e", "q'uote", "h#ash", "x(y)", "per%scent", "\u00e4\u00f6", "+plus", "dollar$X", "com,ma", "semi;c", "[br]", "back`t", "d/e/f/g"]
    if c.quick:
        dirs = dirs[:9]
    argsets = [[], ["--generate-types"]] if c.quick else [[], ["--generate-types"], ["--generate-included-functions"], ["--mock-cpp"], ["--generate-types", "--generate-included-functions"]]

    def layout(root, d):
        top = os.path.join(root, d)
        write(top + "/in/h.h", G07_H)
        write(top + "/in/sib.h", "typedef int SIB;\nint sibf(SIB a);\n")
        write(top + "/up.h", "typedef long UP;\nint upf(UP a);\n")
        write(top + "/sys/sys_dir.h", "typedef char SYS;\nint sysf(SYS a);\n")
        for x in ("out", "other/deep"):
            os.makedirs(top + "/" + x)
        os.symlink("in", top + "/lin")
        os.symlink(top + "/in/h.h", top + "/other/h.h")
        os.symlink(top + "/out", top + "/lout")
        return top

    def one(job):
        d, args, (cwd, cwdopt, hs, os_, inc), key = job
        with c.lock:
            runs[0] += 1
            n = runs[0]
        root = c.work + "/r%d" % n
        top = layout(root, d)
        f = lambda s: s.replace("@", top)
        a = [gen] + (["--cwd", f(cwdopt)] if cwdopt else []) + ["-i", f(hs), "-o", f(os_)] + args + ["-I" + f(inc)]
        before = {x for x, _, fs in os.walk(root) for x in [os.path.join(x, y) for y in fs]}
        rc, out = sh(a, cwd=f(cwd))
        got = canon(outputs(top + "/out"))
        after = {x for x, _, fs in os.walk(root) for x in [os.path.join(x, y) for y in fs]}
        extra = {os.path.relpath(x, top) for x in after - before} - {"out/" + n for n in got}
        shutil.rmtree(root, True)
        return job, rc, out, got, extra

    spell_h = ["@/in/h.h", "@//in///h.h", "@/./in/./h.h", "@/in/../in/h.h", "@/lin/h.h", "@/out/../in/h.h"]
    rel_h = {"@": ["in/h.h", "./in/h.h", "in//h.h", "lin/h.h", "out/../in/h.h"], "@/in": ["h.h", "./h.h", "../in/h.h", "../lin/h.h"], "@/out": ["../in/h.h"], "@/other/deep": ["../../in/h.h", "../../lin/h.h"]}
    abs_o = ["@/out", "@/out/", "@/out/.", "@//out", "@/lout", "@/in/../out"]
    rel_o = {"@": ["out", "./out", "out/", "lout", "in/../out"], "@/in": ["../out", "../lout/"], "@/out": [".", "./", "../out"], "@/other/deep": ["../../out"]}
    incs = {"abs": "@/sys"}
    rel_i = {"@": "sys", "@/in": "../sys", "@/out": "../sys", "@/other/deep": "../../sys"}
    combos = []
    for h in spell_h:
        for o in abs_o:
            combos.append(("/", None, h, o, "@/sys"))
    for w in rel_h:
        for h in rel_h[w] + spell_h[:1]:
            for o in rel_o[w] + abs_o[:1]:
                combos.append((w, None, h, o, rel_i[w]))
                # the same through --cwd, from another directory, given absolutely or relatively
                combos.append(("/", w, h, o, rel_i[w]))
                combos.append(("@/other", w.replace("@", "..", 1), h, o, rel_i[w]))
    combos = sorted(set(combos), key=str)
    ref = {}
    for args in argsets:
        job, rc, out, got, extra = one(("d", args, ("/", None, "@/in/h.h", "@/out", "@/sys"), ""))
        ref[tuple(args)] = got
        if rc != 0 or len(got) != 2:
            c.violation("plain:" + "".join(args), "exit %s: %s" % (rc, out[-300:]), {"h.h": G07_H})
            return
        fns = mocked(got["easyMock_h.h"])
        if not {"f", "g"} <= fns:
            c.violation("plain:mocked:" + "".join(args), "mocked %s" % sorted(fns), {"h.h": G07_H})
    jobs = []
    for d in dirs:
        for args in argsets:
            for k, cb in enumerate(combos if d == "d" or not c.quick else combos[::5]):
                jobs.append((d, args, cb, "%s:%s:%s" % (d.replace(" ", "_"), "".join(args), "|".join(str(x) for x in cb))))
    for job, rc, out, got, extra in pmap(one, jobs):
        d, args, cb, key = job
        # a symbolic link as the directory of the header changes what "../up.h" means; both links here keep it
        if rc != 0 or got != ref[tuple(args)] or extra:
            why = "exit %s: %s" % (rc, out[-200:]) if rc != 0 else "also wrote %s" % sorted(extra) if extra else "the mock differs from the plainly spelled one: " + next(
                (" <> ".join(map(repr, p)) for n in ref[tuple(args)] for p in zip(ref[tuple(args)][n].splitlines(), got.get(n, "").splitlines()) if p[0] != p[1]), str(sorted(got)))
            c.violation("spelling:" + key.replace(" ", "_"), "cwd %s --cwd %s -i %s -o %s -I%s in '%s': %s" % (cb + (d, why)), {"h.h": G07_H})

    # file names: the mock is named after the base name, compiles and works
    names = ["h.h", "my-header.h", "my_header.h", "UPPER.h", "a.b.h", "a.b.c.h", "x1.h", "1st.h", "_u.h", "trail_.h", "sp ace.h", "plus+.h", "\u00e4.h", "com,ma.h", ".dot.h", "h..h", "easyMock_h.h", "main.h", "int.h", "L" * 200 + ".h", "a(b).h", "eq=.h", "at@.h"]
    cppnames = ["h.h", "h.hh", "h.H", "h.hpp", "h.hxx", "my-h.hpp", "a.b.hpp", "a.h.hpp", ".hpp.hh"]
    DRVX = '#include "%s"\n#include "%s"\n#include <stdio.h>\nint main() { easyMock_init(); EasyMock::fn::ExpectAndReturn(3, 4, EasyMock::cmp<int>); int ok = fn(3) == 4 && easyMock_check() == 1; EasyMock::fn::ExpectAndReturn(3, 4, EasyMock::cmp<int>); ok = ok && fn(2) == 4 && easyMock_check() == 0; puts(ok ? "END 0" : "BAD"); return 0; }\n'
    DRV = '#include "%s"\n#include "%s"\n#include <stdio.h>\nint main(void) { easyMock_init(); fn_ExpectAndReturn(3, 4, cmp_int); int ok = fn(3) == 4 && easyMock_check() == 1; fn_ExpectAndReturn(3, 4, cmp_int); ok = ok && fn(2) == 4 && easyMock_check() == 0; puts(ok ? "END 0" : "BAD"); return 0; }\n'

    def named(job):
        n, args = job
        x = "cpp" if "--mock-cpp" in args else "c"
        d = c.work + "/n%s%s" % (hashlib.md5(n.encode()).hexdigest(), "".join(args))
        write(d + "/" + n, "int fn(int a);\n")
        os.makedirs(d + "/out")
        base = n.rsplit(".", 1)[0] if "." in n else n
        rc, out = generate(gen, d + "/" + n, d + "/out", args)
        exp = {"easyMock_%s.h" % base, "easyMock_%s.%s" % (base, x)}
        got = set(os.listdir(d + "/out"))
        if rc == 0 and got != exp:
            return job, "files %s" % sorted(got)
        if rc != 0:
            return job, "exit %s: %s" % (rc, out[-200:])
        write(d + "/d." + x, (DRVX if x == "cpp" else DRV) % (n, "easyMock_%s.h" % base))
        rc, out = sh((["g++", "-std=gnu++17"] if x == "cpp" else ["gcc", "-std=gnu11"]) + ["-w", "-I" + d, "-I" + d + "/out", "-I" + FWINC, d + "/d." + x, d + "/out/easyMock_%s.%s" % (base, x), "-o", d + "/x", fw, "-Wl,-rpath," + os.path.dirname(fw)])
        if rc != 0:
            return job, "does not compile: " + "; ".join([l for l in out.splitlines() if "error" in l][:2])
        rc, out = sh([d + "/x"])
        shutil.rmtree(d, True)
        return job, None if "END 0" in out else "wrong behaviour: exit %s %s" % (rc, out)
    njobs = [(n, a) for n in names for a in ([], ["--generate-types"])] + [(n, ["--mock-cpp"]) for n in cppnames]
    for (n, a), why in pmap(named, njobs):
        if why:
            c.violation("name:%s:%s" % (n.replace(" ", "_"), "".join(a)), "header named %s %s: %s" % (n, " ".join(a), why))

    # refusals: nothing is written and the status tells
    d = c.work + "/ref"
    write(d + "/h.h", "int fn(int a);\n")
    write(d + "/sub/h2.h", "int fn(int a);\n")
    os.makedirs(d + "/out")
    os.symlink("nowhere", d + "/dang.h")
    os.symlink("self", d + "/self")
    ins, outs, cwds = ["h.h", d + "/h.h", "nofile.h", d + "/nofile.h", "out", "dang.h", "self", "h.h/x", "sub/h2.h", "h2.h", "../h.h", "/dev/null"], ["out", d + "/out", "noout", d + "/noout", "h.h", "out/x", "self", "../out", "."], [None, d, ".", "sub", "nosub", d + "/h.h", "self", "/"]

    def refuse(job):
        i, o, w = job
        base = os.path.normpath(os.path.join(d, w)) if w else d
        ok_i = os.path.isfile(os.path.join(base, i)) and os.path.isdir(base)
        ok_o = os.path.isdir(os.path.join(base, o)) and os.path.isdir(base)
        if ok_i and ok_o:
            return None
        before = sorted(os.path.join(r, x) for r, _, fs in os.walk(d) for x in fs)
        rc, out = sh([gen, "-i", i, "-o", o] + (["--cwd", w] if w else []), cwd=d)
        after = sorted(os.path.join(r, x) for r, _, fs in os.walk(d) for x in fs)
        if not isinstance(rc, int) or rc <= 0 or not out.strip():
            return "refused with status %s, output '%s'" % (rc, out[-200:])
        if before != after:
            return "wrote %s" % sorted(set(after) - set(before))
    rj = list(itertools.product(ins, outs, cwds))
    for j in rj:
        why = None
        why = refuse(j)
        runs[0] += 1
        if why:
            c.violation("refuse:" + "|".join(map(str, j)).replace(d, "@"), "-i %s -o %s --cwd %s: %s" % (j + (why,)))
    c.add(states=runs[0] + len(njobs), transitions=runs[0] + len(njobs), traces_validated_against_impl=runs[0] + len(njobs), spellings=len(jobs), names=len(names), refusals=len(rj))
    for j in jobs[:: max(1, len(jobs) // 8)]:
        c.sample(j[3])
    c.assumptions += ["two mocks with the same code apart from comments behave the same"]


# ---------------------------------------------------------------- G14
def G14(c):
    tool = embuild.gen_tool("model", HERE + "/gt/model.cpp")
    np = 8
    th = 0 if c.quick else 1
    terms = {}
    for a, (rc, out) in run_parts(c, tool, [(m, th, p, np) for m in ("deep", "nest", "wide", "fun") for p in range(np)]):
        m = re.search(r"TERMS (\d+) CHECKS (\d+) BAD (\d+)", out)
        cmdline = "cd %s && %s %s" % (VERIF, tool, " ".join(map(str, a)))
        for l in [l for l in out.splitlines() if l.startswith("BAD ")]:
            key, why = l[4:].rsplit(" | ", 1)
            c.violation(key.replace(" ", "_"), "%s: %s" % (key, why), script=cmdline)
        if rc != 0 or not m:
            c.violation("crash:%s" % "-".join(map(str, a)), "the explorer of the model classes ended with %s: %s" % (rc, out[-300:]), script=cmdline)
            continue
        terms[a[0]] = int(m.group(1))
        c.add(transitions=int(m.group(2)))
    c.add(states=sum(terms.values()), **{"objects_" + k: v for k, v in terms.items()})
    c.add(traces_validated_against_impl=sum(terms.values()))
