"""R01-R07: the runtime, explored by exhaustive enumeration of API histories on the real code."""
import json, os, re, shutil
import embuild
from emcheck import *

RT = os.path.join(VERIF, "checks", "rt")


def build_shared(c, names=("hxd.h", "hxe.h")):
    """the mocks of the given headers as shared objects; list of paths or None"""
    gen, lib = embuild.generator(), embuild.framework("plain")
    d = os.path.join(c.work, "shared")
    r = []
    for name in names:
        rc, out = generate(gen, os.path.join(RT, name), d)
        b = name[:-2]
        so = os.path.join(d, "lib%s.so" % b)
        if rc == 0:
            rc, out = sh(["gcc", "-fPIC", "-shared", "-g", "-w", "-I" + RT, "-I" + d, "-I" + FWINC, os.path.join(d, "easyMock_%s.c" % b), lib, "-Wl,-rpath," + os.path.dirname(lib), "-o", so])
        if rc != 0:
            c.violation("harness-shared-" + name, "the mock of %s cannot be built as a shared object: %s" % (name, out[-1500:]))
            return None
        r.append(so)
    return r


def build_mocks(c, variant="plain", headers=(("hxa.h", ()), ("hxb.h", ()), ("hxc.h", ("--mock-cpp",))), pic=False):
    """generate and compile the harness mocks with the working tree's generator; returns (dir, objs) or None after a violation"""
    gen = embuild.generator()
    d = os.path.join(c.work, "mocks-" + variant)
    fl = embuild.FW_VARIANTS[variant] + ["-g", "-w"] + (["-fPIC"] if pic else [])

    def one(h):
        name, args = h
        rc, out = generate(gen, os.path.join(RT, name), d, args)
        b = name[:-2]
        cpp = "--mock-cpp" in args
        src = os.path.join(d, "easyMock_%s.%s" % (b, "cpp" if cpp else "c"))
        if rc != 0 or not os.path.exists(src):
            return name, None, "generator status %s: %s" % (rc, out[-800:])
        o = os.path.join(d, b + ".o")
        rc, out = sh([("g++" if cpp else "gcc")] + (["-std=gnu++17"] if cpp else []) + fl + ["-I" + RT, "-I" + d, "-I" + FWINC, "-c", src, "-o", o])
        return name, (o if rc == 0 else None), out[-1500:]
    objs = []
    for name, o, out in pmap(one, headers):
        if o is None:
            c.violation("harness-mock-" + name, "the mock of %s cannot be generated or compiled: %s" % (name, out),
                        {name: open(os.path.join(RT, name)).read()})
        objs.append(o)
    return None if None in objs else (d, objs)


def build_driver(c, src, variant="plain", extra=()):
    m = build_mocks(c, variant)
    if not m:
        return None
    d, objs = m
    lib = embuild.framework(variant)
    exe = os.path.join(d, os.path.basename(src) + ".exe")
    rc, out = sh(["g++", "-std=gnu++17", "-g", "-w"] + embuild.FW_VARIANTS[variant] + ["-I" + RT, "-I" + d, "-I" + FWINC, os.path.join(RT, src)] + objs +
                 [lib, "-Wl,-rpath," + os.path.dirname(lib), "-o", exe, "-ldl"] + list(extra))
    if rc != 0:
        c.violation("harness-driver", "a program using the mocks of the harness headers does not compile or link: " + out[-2500:])
        return None
    return exe


def R06(c):
    c.assumptions += ASSUME + ["order checking off while mocks are unloaded (an unloaded, never called expectation stays first in the global order)"]
    c.cov["rule"] = "every sequence of register, unregister, init, check and failing-verify toggles over three/four registrations with counting callbacks; every sequence of load, unload, expect, call, init, check over two mocks in shared objects"
    c.sample("L0,E0,L1,U0,E1,C1,K,L0,K = load mock 0, expect, load mock 1, unload mock 0, expect and call mock 1, check, load mock 0 again, check")
    q = c.quick
    so = build_shared(c)
    exe = build_driver(c, "reg.cpp")
    if exe and so:
        ENV.update(EM_SO_A=so[0], EM_SO_B=so[1])
        run_modes(c, exe, [("fake3", 6 if q else 7), ("fake4", 6 if q else 7), ("failsets", 0), ("dl", 5 if q else 6), ("dlloop", 40)])


ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=1:exitcode=77:abort_on_error=0", UBSAN_OPTIONS="halt_on_error=1:exitcode=77")


def run_modes(c, exe, modes, timeout=800, shards=NCPU, tag="", cat=None):
    """cat: text put before the history in the key (so that known findings can name a kind of case)"""
    jobs = [(m, s) for m in modes for s in range(shards)]

    def one(j):
        (mode, depth), s = j
        return j, sh([exe, mode, str(depth), str(s), str(shards)], timeout=timeout, env=ENV)
    for (md, s), (rc, out) in pmap(one, jobs):
        got = False
        for l in out.splitlines():
            if l.startswith("STATS "):
                st = json.loads(l[6:])
                got = True
                c.add(states=st.get("states", 0), transitions=st.get("steps", 0), traces_validated_against_impl=st.get("histories", 0))
                c.cov["distinct_nontrivial"] = c.cov.get("distinct_nontrivial", 0) + st.get("outcomes", 0)
            m = re.match(r"VIOL (\S+) (\S+) :: (.*)", l)
            if m:
                got = True
                hist = m.group(2)
                # replaying is informative only; a few are enough
                rep = True
                if len(c.violations) < 20:
                    rrc, rout = sh([exe, "replay", hist], env=ENV, timeout=20)
                    rep = "VIOL" in rout or rrc not in (0,)
                c.violation("%s%s:%s" % (tag, md[0], hist), m.group(3) + ("" if rep else "  [needs the histories explored before it in the same process: %s %s shard %s/%s]" % (md[0], md[1], s, shards)),
                            {"history.txt": hist}, "exec %s/checks/rt/replay.sh %s '%s' %s # mode %s" % (VERIF, os.path.basename(exe)[:-4], hist, "asan" if tag else "plain", md[0]))
        if rc != 0 or not got:
            key = "%s%s:abnormal" % (tag, md[0])
            c.violation(key, "exploration %s %s shard %d ended abnormally (%s): %s" % (md[0], md[1], s, rc, out[-1500:]), {"output.txt": out[-20000:]})
    c.cov.setdefault("bounds", []).extend("%s%s depth/bound %s (all)" % (tag, m, d) for m, d in modes)


ASSUME = ["single-threaded use (the framework keeps unsynchronised global state; no threads are promised)",
          "histories start from easyMock_init; the mocked functions of the harness headers stand for all functions (types are covered by G03/R10)"]


def hist(c, quick, thorough, asan=()):
    c.assumptions += ASSUME
    c.cov["rule"] = "every operation sequence of the stated alphabet and depth is executed on the real mocks and framework and compared step by step with the reference model (values returned, matchers run, outputs, exact error list, verdict)"
    c.sample("E0.0,E6.1,C6.0,C0.1,K = expect hx_i, expect hx_f, call hx_f, call hx_i with one wrong argument, check")
    exe = build_driver(c, "hist.cpp")
    if exe:
        run_modes(c, exe, quick if c.quick else thorough)
    if asan:
        exe = build_driver(c, "hist.cpp", "asan")
        if exe:
            run_modes(c, exe, asan, tag="asan-")


def R01(c):
    hist(c, [("match", 4), ("match3f", 5), ("matcho", 5), ("matchdeep", 2), ("linear", 256)], [("match", 5), ("match3f", 6), ("matcho", 6), ("matchdeep", 3), ("linear", 256)], [("match", 3), ("matchdeep", 1)])


def R02(c):
    hist(c, [("verdict", 5), ("counts", 3), ("allmis", 0), ("linear", 256)], [("verdict", 6), ("counts", 4), ("allmis", 0), ("linear", 256)])


def R03(c):
    hist(c, [("order", 6), ("order2", 6), ("orderperm", 5), ("orderdeep", 0)], [("order", 7), ("order2", 7), ("orderperm", 6), ("orderdeep", 0)])


def R04(c):
    hist(c, [("init", 23), ("initdeep", 0)], [("init", 33), ("initdeep", 0)], [("init", 22)])


def r05_names(c):
    """the frames of a call stack name the functions, whatever these are called (f is also a mangled type)"""
    import itertools, string
    names = list(string.ascii_lowercase) + ["".join(t) for t in itertools.product(string.ascii_letters + "_", string.ascii_letters + "_0")]
    names = [n for n in names if n not in ("do", "if", "y0", "j0", "__") and (not c.quick or len(n) == 1 or n[1] in "ta")]
    d = os.path.join(c.work, "names")
    os.makedirs(d, exist_ok=True)
    write(os.path.join(d, "nm.h"), "".join("int %s(int q_);\n" % n for n in names) + "int _Z3foov(int q_);\n")
    rc, out = generate(embuild.generator(), os.path.join(d, "nm.h"), d)
    lib = embuild.framework("plain")
    body = "".join('  if(atoi(argv[1]) == %d) t_%s();\n' % (i % NCPU, n) for i, n in enumerate(names))
    write(os.path.join(d, "t.c"), """#include "easyMock_nm.h"
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#define T(n) __attribute__((noinline, noclone)) void t_##n(void) { unsigned nb_; const char **arr_; \\
  easyMock_init(); n(1); __asm__ volatile(""); arr_ = easyMock_getErrorArr(&nb_); \\
  if (nb_ != 1 || !strstr(arr_[0], "\\tat " #n "(") || !strstr(arr_[0], "\\tat t_" #n "(")) printf("BAD %%s %%s\\n", #n, nb_ ? arr_[0] : "no error"); else puts("OK"); }
%s
int main(int argc, char **argv) { easyMock_setPrintCallStack(1);
%s  return 0; }
""" % ("\n".join("T(%s)" % n for n in names), body))
    exe = os.path.join(d, "t")
    if rc == 0:
        rc, out = sh(["gcc", "-g", "-w", "-fno-builtin", "-I" + d, "-I" + FWINC, os.path.join(d, "t.c"), os.path.join(d, "easyMock_nm.c"), lib, "-Wl,-rpath," + os.path.dirname(lib), "-o", exe])
    if rc != 0:
        c.violation("names:build", "the mock of functions with short names does not build: " + out[-1500:])
        return
    res = pmap(lambda i: sh([exe, str(i)], timeout=600), range(NCPU))
    rc, out = next((r[0] for r in res if r[0] != 0), 0), "".join(r[1] for r in res)
    ok = out.count("OK\n")
    c.add(states=ok, transitions=ok, traces_validated_against_impl=ok)
    c.cov["function_names_in_call_stacks"] = ok
    for b in re.findall(r"BAD (\S+) (.*(?:\n\t.*)*)", out):
        c.violation("names:" + b[0], "the call stack of an unexpected call of %s does not name it: %s" % b, {"nm.h": "int %s(int q_);\n" % b[0]})
    if rc != 0 or ok + out.count("BAD ") != len(names):
        c.violation("names:run", "the program which calls functions with short names ends with %s: %s" % (rc, out[-600:]))


def R05(c):
    r05_names(c)
    c.assumptions += ASSUME + ["errors reported again by a second easyMock_check are adopted as recorded errors"]
    c.cov["rule"] = "every sequence of recorded errors (direct, from mocks in C and C++, formatted, empty, long), reads, checks, initialisations and call-stack switches is executed; string, array and verdict are compared with a list of the messages"
    c.sample("v,S,a300,G,K,I,G = unexpected call, read string, 300-byte error, read array, check, init, read array")
    exe = build_driver(c, "errs.cpp")
    if exe:
        q = c.quick
        run_modes(c, exe, [("hist", 5 if q else 6), ("stack", 3 if q else 4), ("len", 3000 if q else 20000), ("len2", 0), ("count", 300 if q else 1500)])
    exe = build_driver(c, "errs.cpp", "asan")
    if exe:
        run_modes(c, exe, [("hist", 3 if c.quick else 4), ("len2", 0), ("len", 600)], tag="asan-")


def R07(c):
    c.assumptions += ASSUME
    c.cov["rule"] = "every sequence of queue, call, reset and verify on the C queue (all data sizes up to the bound) and the C++ queue (objects owning memory), every fill level up to 256, and one expectation too many after every number of calls, under address, undefined-behaviour and leak checking"
    c.sample("c:24:a256c256ra256c256v = 24-byte entries, 256 queued, 256 served, reset, 256 queued, 256 served, verify")
    q = c.quick
    exe = build_driver(c, "queue.cpp", "asan")
    if exe:
        run_modes(c, exe, [("seq", 8 if q else 9), ("size", 520 if q else 2100), ("fill", 1 if q else 2), ("over", 8 if q else 1)], tag="asan-")
    exe = build_driver(c, "queue.cpp")
    if exe:
        run_modes(c, exe, [("fill", 1), ("over", 32)])


def R08(c):
    c.assumptions += ["texts passed in are terminated strings"]
    c.cov["rule"] = "every sequence of construction, append, compare and release with pieces of the stated lengths, every pair of lengths (i, j) in construction + append, append chains of every piece length; content, length, comparisons compared with std::string under address and leak checking"
    c.sample("i255,a1,a1 = new from 255 characters, append 1, append 1")
    q = c.quick
    exe = build_driver(c, "cstr.cpp", "asan")
    if exe:
        run_modes(c, exe, [("hist", 2 if q else 3), ("reuse", 4 if q else 5), ("two", 300 if q else 800), ("chain", 270 if q else 600), ("single", 1100)], tag="asan-")
    exe = build_driver(c, "cstr.cpp")
    if exe:
        run_modes(c, exe, [("hist", 3 if q else 4), ("two", 600 if q else 1200)])


def R09(c):
    c.assumptions += ["values are compared with == of their C type; floating point messages use the fixed formats of the library (pinned by the tests)"]
    c.cov["rule"] = "all pairs of boundary values of every basic type (all pairs for the 8-bit types), all pairs of text lengths and difference positions, parameter names of all lengths; return value, exact message (cut at 255 characters), untouched operands and buffer on equality"
    c.sample("cmp_int(-2147483648, 2147483647, name of 240 characters)")
    q = c.quick
    exe = build_driver(c, "matchers.cpp")
    if exe:
        run_modes(c, exe, [("basic", 0), ("shortall", 0 if q else 1), ("str", 300 if q else 600)] + ([] if q else [("all16", 0)]))
    exe = build_driver(c, "matchers.cpp", "asan")
    if exe:
        run_modes(c, exe, [("basic", 0), ("str", 64 if q else 300)], tag="asan-")
