"""Development aid: plants a bug in a scratch copy of /repo, confirms it
(compiles, stable tests pass, demonstration fails only with it, touches original
lines), stores it under seeded/<id>/ and reports whether the property's check
catches it.   usage: python tools/plant.py SPEC.py [id ...] [--check-only]"""
import sys, os, json, subprocess, shutil, runpy, re, textwrap
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, HOME="/root", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", NUMBA_NUM_THREADS="1")
BASE = "48240ae"


def sh(cmd, cwd, env=None, t=900):
    return subprocess.run(cmd, cwd=cwd, env=env or ENV, capture_output=True, text=True, timeout=t)


def plant(b, tests=True):
    i = b["id"]
    sc = f"/tmp/plant-{i}"
    shutil.rmtree(sc, ignore_errors=True)
    sh(["cp", "-a", "/repo", sc], "/")
    out = {}
    try:
        for f, old, new in b["edits"]:
            p = os.path.join(sc, f); s = open(p).read()
            assert s.count(old) == 1, (i, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        d = os.path.join(H, "seeded", i)
        os.makedirs(d, exist_ok=True)
        diff = sh(["git", "diff"], sc).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore MPLBACKEND=Agg\nPY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3\nexec "$PY" "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "demo.py"), "w").write("import os, sys, warnings\nsys.path.insert(0, os.getcwd())\nwarnings.simplefilter('ignore')\nimport numpy as np, pandas as pd, chainladder as cl\n" + textwrap.dedent(b["demo"]).lstrip("\n"))
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
        # original lines?
        orig = 0
        for f in {e[0] for e in b["edits"]}:
            bl = sh(["git", "blame", "-s", "--abbrev=7", f], "/repo").stdout.split("\n")
            cur = None
            for l in sh(["git", "diff", "-U0", f], sc).stdout.split("\n"):
                m = re.match(r"@@ -(\d+)(?:,(\d+))? ", l)
                if m:
                    a, n = int(m[1]), int(m[2] or 1)
                    orig += sum(bl[k - 1].lstrip("^").startswith(BASE) for k in range(a, a + n))
        out["orig_lines"] = orig
        c = sh(["bash", os.path.join(d, "demo.sh")], "/repo"); x = sh(["bash", os.path.join(d, "demo.sh")], sc)
        out["demo"] = (c.returncode, x.returncode)
        if c.returncode: out["demo_clean_err"] = c.stderr[-600:]
        out["demo_patched"] = (x.stderr.strip().split("\n") or [""])[-1][:150]
        if tests:
            r = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "8", "--timeout=300", "--tb=no", "-o", "junit_family=xunit2", f"--junitxml={sc}/junit.xml"], sc, dict(ENV, PYTHONPATH=sc))
            sh([PY, "/opt/vp/results.py", f"{sc}/res.json", f"junit:{sc}/junit.xml"], sc)
            res = json.load(open(f"{sc}/res.json")); st = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            out["broken_tests"] = sorted(set(st) - set(res["passed"]))[:4]
        r = sh(["bash", "run.sh", b["property"]], H, dict(os.environ, CV_REPO=sc))
        out["caught"] = (r.returncode, [l[:160] for l in r.stdout.split("\n") if "[" in l or "VIOL" in l or "INCON" in l][:3])
    finally:
        shutil.rmtree(sc, ignore_errors=True)
    ok = out["demo"][0] == 0 and out["demo"][1] != 0 and out["orig_lines"] > 0 and not out.get("broken_tests")
    cp = os.path.join(H, "tools", "caught.json")
    res = json.load(open(cp)) if os.path.exists(cp) else {}
    if ok:
        res[i] = "yes, " + b["property"] if out["caught"][0] == 1 else "MISSED"
        json.dump(res, open(cp, "w"), indent=1)
    if not ok:
        shutil.rmtree(os.path.join(H, "seeded", i), ignore_errors=True)
    print(("OK  " if ok else "BAD ") + i, "CAUGHT" if out["caught"][0] == 1 else "MISSED", json.dumps(out))


if __name__ == "__main__":
    a = [x for x in sys.argv[1:] if not x.startswith("--")]
    bugs = runpy.run_path(a[0])["BUGS"]
    for b in bugs:
        if len(a) < 2 or b["id"] in a[1:]:
            try:
                plant(b, tests="--check-only" not in sys.argv)
            except Exception as e:
                print("ERR", b["id"], repr(e)[:300])
            sys.stdout.flush()
