"""Append 'fixed:' lines for the fix commits in /repo not recorded yet.
usage: fixed.py CNN [WORD...]  (those whose subject has one of the words; all without words)"""
import subprocess, sys
f = "/verif/known_findings.txt"
txt = open(f).read()
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True)
for line in log.splitlines():
    h, s = line.split(" ", 1)
    if s.startswith("fix:") and h not in txt:
        if len(sys.argv) > 2 and not any(w in s for w in sys.argv[2:]):
            continue
        txt += "fixed: property=%s %s %s\n" % (sys.argv[1], h, s[4:].strip())
        print(h, s)
if not txt.endswith("\n"):
    txt += "\n"
open(f, "w").write(txt)
