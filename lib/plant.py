"""Validates planted bugs (seeded/<id>/) in scratch copies bind-mounted over /repo in a private mount namespace.

usage: plant.py [--no-tests] [--check TIER] ID...
For every ID: the demo passes on the unchanged tree, the patch applies, builds, the stable tests pass, the demo
fails; then the check of the bug's property is run on the changed tree (from a copy of /verif).
"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/plant"
BASE = W + "/base"


def ns(repo, script, timeout=3000):
    r = subprocess.run(["unshare", "-Urm", "bash", "-c", "mount --bind %s /repo && cd /repo && %s" % (repo, script)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return r.returncode, r.stdout.decode(errors="replace")


def stable():
    b = json.load(open("/opt/vp/BASELINE.json"))
    return set(b["stable"])


def one(i, tests=True, tier=None):
    s = os.path.join(V, "seeded", i)
    meta = json.load(open(s + "/meta.json"))
    d = "%s/%s" % (W, i)
    shutil.rmtree(d, True)
    log = []
    subprocess.run(["cp", "-a", BASE, d], check=True)
    demo = W + "/demo-" + i
    shutil.rmtree(demo, True)
    shutil.copytree(s, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    try:
        rc, out = ns(d, "bash %s/demo.sh" % demo)
        log.append("demo clean %s" % rc)
        if rc:
            return i, "BAD demo fails on the unchanged tree: " + out[-800:]
        r = subprocess.run(["git", "-C", d, "apply", s + "/patch.diff"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            return i, "BAD patch: " + r.stdout.decode()
        if tests:
            rc, out = ns(d, "bash /opt/vp/test.sh %s.json" % d)
            res = json.load(open(d + ".json"))
            bad = stable() - set(res["passed"])
            if bad:
                return i, "BAD tests fail: %d %s %s" % (len(bad), sorted(bad)[:3], out[-300:] if not res["passed"] else "")
        else:
            rc, out = ns(d, "bash /opt/vp/build.sh")
            if rc:
                return i, "BAD build: " + out[-600:]
        rc, out = ns(d, "bash %s/demo.sh" % demo)
        if rc == 0:
            return i, "BAD demo passes with the patch: " + out[-500:]
        log.append("demo patched %s" % rc)
        if tier:
            rc, out = ns(d, "cd %s && VERIF_SEED=1 VERIF_TIER=%s python3 check.py %s %s" % (V, tier, meta["property"], tier))
            hit = rc == 1 and "VIOLATION property=%s " % meta["property"] in out
            log.append("check %s rc=%s %s | %s" % (meta["property"], rc, "CAUGHT" if hit else "MISSED", " / ".join(l.strip()[:220] for l in out.splitlines() if l.startswith("  case"))[:300] or out[-200:]))
        return i, "ok; " + "; ".join(log)
    finally:
        for x in (d, demo):
            shutil.rmtree(x, True)
        if os.path.exists(d + ".json"):
            os.unlink(d + ".json")


if __name__ == "__main__":
    a = sys.argv[1:]
    tests = "--no-tests" not in a
    tier = a[a.index("--check") + 1] if "--check" in a else None
    ids = [x for x in a if not x.startswith("--") and x != tier] or sorted(os.listdir(V + "/seeded"))
    with ThreadPoolExecutor(3) as ex:
        for r in ex.map(lambda i: one(i, tests, tier), ids):
            print(r[0], r[1], flush=True)
