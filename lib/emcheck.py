"""Common machinery of all checks: tiers, evidence, violations, known findings, parallel runs."""
import atexit, json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor, ProcessPoolExecutor
import embuild
from embuild import REPO, VERIF, NCPU

FWINC = REPO + "/src/easyMockFramework/include"
KNOWN = os.path.join(VERIF, "known_findings.txt")


class Check:
    def __init__(self, prop, tier, level="model_checking"):
        self.prop, self.tier, self.level = prop, tier, level
        self.quick = tier != "thorough"
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "evaluations": 0, "samples": []}
        self.assumptions = []
        self.violations = []          # (key, text, replay lines)
        self.known_hit = {}
        self.known = load_known(prop)
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.work = tempfile.mkdtemp(prefix="em-%s-" % prop)
        atexit.register(shutil.rmtree, self.work, True)
        self.rdir = os.path.join(VERIF, "evidence", "replay", prop)
        shutil.rmtree(self.rdir, True)
        self.notes = []
        self.lock = threading.RLock()
        # a changed tree can make the exploration slow: what was found by then is reported in time
        t = threading.Timer(float(os.environ.get("EM_DEADLINE", "840")), self.deadline)
        t.daemon = True
        t.start()

    def deadline(self):
        with self.lock:
            if self.violations:
                self.notes.append("stopped at the deadline")
                self.finish()
                sys.stdout.flush()
                os.system("pkill -KILL -P %d" % os.getpid())
                os._exit(1)

    # --- coverage
    def add(self, **kw):
        for k, v in kw.items():
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                self.cov[k] = self.cov.get(k, 0) + v
            else:
                self.cov[k] = v

    def sample(self, s, cap=12):
        if len(self.cov["samples"]) < cap:
            self.cov["samples"].append(s)

    # --- violations
    def violation(self, key, text, files=None, script=None):
        """key identifies the failing input/history; a known finding whose pattern matches the key is reported as such."""
        with self.lock:
            self._violation(key, text, files, script)

    def _violation(self, key, text, files, script):
        for k, (pat, desc) in enumerate(self.known):
            if pat == key or (pat.endswith("*") and key.startswith(pat[:-1])):
                self.known_hit.setdefault(pat, desc)
                return
        n = len(self.violations)
        path = None
        if n < 20:
            d = os.path.join(self.rdir, "%d" % n)
            os.makedirs(d, exist_ok=True)
            for name, content in (files or {}).items():
                with open(os.path.join(d, name), "wb") as f:
                    f.write(content if isinstance(content, bytes) else content.encode())
            path = os.path.join(d, "replay.sh")
            with open(path, "w") as f:
                f.write("#!/bin/sh\n# property %s\n# case: %s\n# %s\n%s\n" % (
                    self.prop, key, text.replace("\n", "\n# "), script or ("cd %s && python3 check.py %s %s" % (VERIF, self.prop, self.tier))))
            os.chmod(path, 0o755)
        self.violations.append((key, text, path))

    # --- end
    def finish(self):
        for pat, desc in self.known_hit.items():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, desc))
        for key, text, path in self.violations[:20]:
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            print("  case %s: %s" % (key, text[:1500]))
        if os.environ.get("EM_ALL"):
            for key, text, _ in self.violations:
                print("ALL", key, "|", text.replace("\n", " ; ")[:300])
        if len(self.violations) > 20:
            print("  ... and %d more" % (len(self.violations) - 20))
        ev = {"property": self.prop, "tier": "quick" if self.quick else "thorough", "seed": self.seed, "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1),
              "violations": len(self.violations)}
        if self.known_hit:
            ev["coverage"]["known_findings_seen"] = sorted(self.known_hit)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        c = self.cov
        print("%s %s: states=%s transitions=%s executions=%s violations=%d wall=%.0fs" % (
            self.prop, self.tier, c.get("states"), c.get("transitions"), c.get("traces_validated_against_impl"), len(self.violations), time.time() - self.t0))
        sys.stdout.flush()
        shutil.rmtree(self.work, True)
        return 1 if self.violations else 0


def load_known(prop):
    r = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"finding: property=(\S+) case=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                r.append((m.group(2), m.group(3)))
    return r


def sh(cmd, timeout=120, **kw):
    """run a command, return (rc, output); rc<0 is a signal, 'timeout' a hang"""
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)
        return r.returncode, r.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        return "timeout", (e.stdout or b"").decode(errors="replace")


def pmap(fn, items, workers=NCPU):
    with ThreadPoolExecutor(workers) as ex:
        return list(ex.map(fn, items))


def generate(gen, header, outdir, args=(), cwd=None, timeout=60):
    os.makedirs(outdir, exist_ok=True)
    return sh([gen, "-i", header, "-o", outdir] + list(args), cwd=cwd, timeout=timeout)


def write(path, content):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(content)
    return path
