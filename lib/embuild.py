"""Out-of-tree, content-hashed builds of /repo's working tree.

Every object is keyed by (flags, source content, content of every header under
/repo/src that could reach it), so a changed tree is always rebuilt and an
unchanged one never is.  Nothing is ever written under /repo.
"""
import fcntl, glob, hashlib, os, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("EM_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
FW = REPO + "/src/easyMockFramework"
GEN = REPO + "/src/easyMockGenerate"
CID = "/usr/lib/gcc/x86_64-linux-gnu/13/include:/usr/local/include:/usr/include/x86_64-linux-gnu:/usr/include"
LLVM = "/usr/lib/llvm-14"
NCPU = os.cpu_count() or 4

GENFLAGS = ["-I" + FW + "/include", "-I" + GEN + "/include", "-std=gnu++17", "-w", "-g1",
            '-DC_IMPLICIT_INCLUDE_DIRECTORIES="%s"' % CID, "-DBACKTRACE_SUPPORT",
            "-I" + LLVM + "/include", "-DBOOST_FILESYSTEM_DYN_LINK", "-DBOOST_SYSTEM_DYN_LINK"]
GENLD = ["-L" + LLVM + "/lib", "-lncurses", "-ltinfo", "-lctemplate", "-lboost_filesystem", "-lboost_system",
         "-lclang-cpp", "-lLLVM-14", "-lpthread", "-Wl,-rpath," + LLVM + "/lib"]
FWLD = ["-lunwind", "-ldw", "-lelf"]


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, "little"))
        h.update(p)
    return h.hexdigest()[:24]


def readb(p):
    with open(p, "rb") as f:
        return f.read()


def tree_digest(*dirs):
    parts = []
    for d in dirs:
        for root, ds, fs in sorted(os.walk(d)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(root, f)
                parts += [os.path.relpath(p, REPO), readb(p)]
    return sha(*parts)


def headers_digest(which):
    dirs = {"fw": [FW + "/include"], "gen": [FW + "/include", GEN + "/include"]}[which]
    # private headers living next to the sources count too
    extra = []
    base = FW + "/src" if which == "fw" else GEN + "/src"
    for root, _, fs in sorted(os.walk(base)):
        for f in sorted(fs):
            if f.endswith((".h", ".hpp", ".inc", ".def")):
                extra.append(os.path.join(root, f))
    return sha(tree_digest(*dirs), *[readb(p) for p in extra])


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-4000:]))
    return r.stdout


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.p = os.path.join(BUILD, name + ".lock")

    def __enter__(self):
        self.f = open(self.p, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def _obj(src, flags, cc, hd):
    key = sha(cc, " ".join(flags), src, readb(src), hd)
    d = os.path.join(BUILD, "obj")
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, "%s-%s.o" % (os.path.basename(src), key))
    if not os.path.exists(out):
        tmp = out + ".tmp%d" % os.getpid()
        run([cc] + flags + ["-c", src, "-o", tmp])
        os.rename(tmp, out)
    return out


def objs(srcs_flags):
    """srcs_flags: list of (src, flags, cc, headers digest)"""
    with ThreadPoolExecutor(NCPU) as ex:
        return list(ex.map(lambda a: _obj(*a), srcs_flags))


def _link(name, cmd, inputs):
    key = sha(" ".join(cmd), *[os.path.basename(i) for i in inputs])
    d = os.path.join(BUILD, "bin")
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, "%s-%s" % (name, key))
    if not os.path.exists(out):
        tmp = out + ".tmp%d" % os.getpid()
        run(cmd + ["-o", tmp])
        os.rename(tmp, out)
    return out


FW_VARIANTS = {
    "plain": ["-O1"],
    "asan": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"],
}


def framework(variant="plain"):
    """Path of a shared libEasyMockFramework built from the working tree."""
    with Lock("fw"):
        hd = headers_digest("fw")
        fl = FW_VARIANTS[variant]
        base = ["-fPIC", "-w", "-g", "-DBACKTRACE_SUPPORT", "-I" + FW + "/include"] + fl
        todo = []
        for s in sorted(glob.glob(FW + "/src/*.c")):
            todo.append((s, base, "gcc", hd))
        for s in sorted(glob.glob(FW + "/src/*.cpp")):
            todo.append((s, ["-std=gnu++17"] + base, "g++", hd))
        os_ = objs(todo)
        d = os.path.join(BUILD, "fw-%s-%s" % (variant, sha(*[os.path.basename(o) for o in os_])))
        lib = os.path.join(d, "libEasyMockFramework.so")
        if not os.path.exists(lib):
            os.makedirs(d, exist_ok=True)
            tmp = lib + ".tmp%d" % os.getpid()
            run(["g++", "-fPIC", "-shared", "-Wl,-soname,libEasyMockFramework.so"] + fl + ["-o", tmp] + os_ + FWLD)
            os.rename(tmp, lib)
        return lib


def gen_objs(opt="-O1"):
    hd = headers_digest("gen")
    todo = []
    srcs = sorted(glob.glob(GEN + "/src/*.cpp") + glob.glob(GEN + "/src/*/*.cpp"))
    # heaviest first
    srcs.sort(key=lambda s: -os.path.getsize(s))
    for s in srcs:
        todo.append((s, GENFLAGS + [opt], "g++", hd))
    return dict(zip(srcs, objs(todo)))


def generator():
    """Path of the EasyMockGenerate binary built from the working tree."""
    with Lock("gen"):
        o = gen_objs()
        inputs = [o[k] for k in sorted(o)]
        return _link("EasyMockGenerate", ["g++"] + inputs + GENLD, inputs)


def gen_tool(name, src, extra=(), flags=()):
    """Link a C++ harness of ours against the generator's own objects (minus main.cpp)."""
    with Lock("gen"):
        o = gen_objs()
        inputs = [o[k] for k in sorted(o) if not k.endswith("/src/main.cpp")]
        hd = headers_digest("gen")
        to = objs([(src, GENFLAGS + ["-O1"] + list(flags), "g++", hd)] +
                  [(e, GENFLAGS + ["-O1"] + list(flags), "g++", hd) for e in extra])
        return _link(name, ["g++"] + to + inputs + GENLD, to + inputs)


if __name__ == "__main__":
    import time
    t = time.time()
    try:
        for v in FW_VARIANTS:
            print(framework(v), "%.1fs" % (time.time() - t), flush=True)
        print(generator(), "%.1fs" % (time.time() - t), flush=True)
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(1)
