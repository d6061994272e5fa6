"""addfixed.py ID 'fix: subject' 'what failed': records a repaired defect in known_findings.txt"""
import subprocess, sys
p, subj, what = sys.argv[1:]
h = [l.split(" ", 1)[0] for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines() if l.split(" ", 1)[1] == subj]
assert len(h) == 1, h
L = open("/verif/known_findings.txt").read().splitlines()
i = max(k for k, l in enumerate(L) if l.startswith("fixed:"))
L.insert(i + 1, "fixed: property=%s %s %s" % (p, h[0], what))
open("/verif/known_findings.txt", "w").write("\n".join(L) + "\n")
