"""Writes the "fixed" entries of known_findings.json from the fix: commits in /repo.

The property is the one given here for the commit's subject."""
import json
import os
import subprocess

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = [l.rstrip("\n").split(" ", 1) for l in open(os.path.join(here, "tools", "fixes.txt"))]
path = os.path.join(here, "known_findings.json")
d = json.load(open(path))
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
d["fixed"] = []
for line in log.splitlines():
    h, s = line.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    p = [a for a, b in PROP if b == s[5:]]
    if "Revert" in log and 'Revert "fix: ' + s[5:30] in log:
        continue
    if not p:
        print("no property for:", s)
        continue
    d["fixed"].append("fixed: property=%s %s %s" % (p[0], h, s[5:]))
json.dump(d, open(path, "w"), indent=1)
open(path, "a").write("\n")
print(len(d["fixed"]), "fixed;", len(d["findings"]), "findings")
