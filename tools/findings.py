"""Writes known_findings.txt: unrepaired findings (from tools/findings.json) and
one 'fixed:' line per fix commit in /repo (property from the map below)."""
import subprocess, json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = json.load(open(os.path.join(H, "tools", "fixmap.json")))
out = []
p = os.path.join(H, "tools", "findings.json")
for f in (json.load(open(p)) if os.path.exists(p) else []):
    out.append("finding:" + json.dumps(f))
for l in reversed(subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.strip().split("\n")):
    h, s = l.split(" ", 1)
    if s.startswith("fix: "):
        assert h[:7] in M, l
        out.append(f"fixed: property={M[h[:7]]} {h} {s[5:]}")
open(os.path.join(H, "known_findings.txt"), "w").write("\n".join(out) + "\n")
print(len(out))
