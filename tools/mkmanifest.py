"""Writes /verif/MANIFEST.json from the properties and the checks present."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
T = json.load(open(os.path.join(H, "tools", "techniques.json")))
checks, na = [], []
for line in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if os.path.exists(os.path.join(H, "cv", "props", i.lower() + ".py")):
        checks.append(dict(property=i, quick_cmd=f"bash run.sh {i}", thorough_cmd=f"VERIF_TIER=thorough bash run.sh {i}",
                           technique=T.get(i, T["default"])[0], level="exploration", level_note=T.get(i, T["default"])[1]))
    else:
        na.append(dict(property=i, reason="no check has been built for it yet"))
json.dump(dict(version=1, setup_cmd="/opt/venv/bin/python -c \"import chainladder\"", checks=checks, not_applicable=na,
               notes="All checks run the library from /repo through seeded workloads while monitors watch; see DESIGN.md."),
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not built")
