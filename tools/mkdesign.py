"""Fills the generated tables of DESIGN.md (kept in DESIGN.tmpl.md)."""
import json, os, glob, importlib.util, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(os.path.join(H, "tools", "DESIGN.tmpl.md")).read()
notes = json.load(open(os.path.join(H, "tools", "notes.json")))
P = []
for l in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(l); i = p["id"]
    f = os.path.join(H, "cv", "props", i.lower() + ".py")
    if os.path.exists(f):
        s = open(f).read()
        rule = re.search(r'RULE = "(.*)"', s).group(1)
        cases = re.search(r"CASES = dict\(quick=(\d+), thorough=(\d+)\)", s)
        P.append(f"* **{i} {p['title']}** – {notes.get(i, '')} Workload: {rule}. Cases: {cases.group(1)} quick / {cases.group(2)} thorough.")
    else:
        P.append(f"* **{i} {p['title']}** – not built yet.")
S = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
res = json.load(open(os.path.join(H, "tools", "caught.json"))) if os.path.exists(os.path.join(H, "tools", "caught.json")) else {}
for d in sorted(glob.glob(os.path.join(H, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json"))); i = os.path.basename(d)
    S.append(f"| {i} | {m['property']} | {m['needs']} | {res.get(i, '?')} |")
open(os.path.join(H, "DESIGN.md"), "w").write(t.replace("@@PROPS@@", "\n".join(P)).replace("@@SEEDED@@", "\n".join(S)))
