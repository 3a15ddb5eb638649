"""Runs one property: drives the real library through generated workloads in
forked shards while monitors watch, then writes the verdict and the evidence.

exit 0  held on everything observed
exit 1  violation (VIOLATION line on stdout)
exit 2  inconclusive (watchdog, monitors never reached, harness could not start)
"""
import sys, os, json, time, signal, traceback, importlib, hashlib, pickle, argparse, warnings
from collections import Counter

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
REPO = os.environ.get("CV_REPO", "/repo")


from cv.errors import Abort, Skip


class Ctx:
    """Per-case recorder: events seen, verdicts, distinct case signatures."""

    def __init__(self, prop, seed, tier, index):
        import numpy as np
        self.prop, self.seed, self.tier, self.index = prop, seed, tier, index
        h = hashlib.sha256(f"{prop}/{seed}/{index}".encode()).digest()
        self.rng = np.random.default_rng(int.from_bytes(h[:8], "little"))
        self.events = Counter()
        self.fails = []
        self.sig = []
        self.desc = {}

    def event(self, name, n=1):
        self.events[name] += n

    def note(self, **kw):
        self.desc.update({k: (v if isinstance(v, (int, float, str, bool, type(None))) else repr(v)[:300]) for k, v in kw.items()})

    def fail(self, key, msg, witness=None):
        self.fails.append(dict(key=key, msg=str(msg)[:600], witness=repr(witness)[:1500] if witness is not None else None))

    def check(self, ok, key, msg="", witness=None):
        self.events["checks"] += 1
        self.events["chk:" + key.split(":")[0]] += 1
        if not ok:
            self.fail(key, msg() if callable(msg) else msg, witness)
        return ok

    def must(self, ok, key, msg="", witness=None):
        if not self.check(ok, key, msg, witness):
            raise Abort()

    def call(self, name, fn, *a, **k):
        """a call of the code under test that has to succeed"""
        self.events["calls"] += 1
        self.events["op:" + name] += 1
        try:
            return fn(*a, **k)
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            loc = next((f"{os.path.basename(t.filename)}:{t.name}" for t in reversed(tb) if "chainladder" in t.filename), "?")
            self.fail(f"raise:{name}:{type(e).__name__}:{loc}", f"{name} raised {type(e).__name__}: {e}", traceback.format_exc()[-1200:])
            raise Abort()


def run_case(mod, ctx):
    try:
        mod.case(ctx, ctx.index)
        status = "run"
    except Abort:
        status = "run"
    except Skip:
        status = "skip"
    except MemoryError:
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        loc = next((f"{os.path.basename(t.filename)}:{t.name}" for t in reversed(tb) if "chainladder" in t.filename),
                   f"{os.path.basename(tb[-1].filename)}:{tb[-1].name}")
        ctx.fail(f"exception:{type(e).__name__}:{loc}", f"{type(e).__name__}: {e}", traceback.format_exc()[-1500:])
        status = "run"
    return status


def shard(mod, prop, seed, tier, n, k, nsh, deadline, path):
    warnings.simplefilter("ignore")
    res = dict(done=0, skipped=0, unrun=0, events=Counter(), sigs=set(), fails=[], samples=[])
    for i in range(k, n, nsh):
        if time.time() > deadline:
            res["unrun"] += 1
            continue
        ctx = Ctx(prop, seed, tier, i)
        st = run_case(mod, ctx)
        res["events"].update(ctx.events)
        if st == "skip" and not ctx.fails:
            res["skipped"] += 1
            continue
        res["done"] += 1
        if ctx.events["checks"]:
            res["sigs"].add(repr((ctx.sig or sorted(ctx.desc.items()))))
        if len(res["samples"]) < 2 and ctx.desc:
            res["samples"].append(dict(case=i, **ctx.desc, events=dict(ctx.events.most_common(6))))
        for f in ctx.fails[:3]:
            if len(res["fails"]) < 40:
                res["fails"].append(dict(f, case=i, desc=ctx.desc))
    with open(path, "wb") as fh:
        pickle.dump(res, fh)


def known_findings(prop):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:"):
                d = json.loads(line[len("finding:"):])
                if d["property"] == prop:
                    out.append(d)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--cases", type=int)
    ap.add_argument("--only", type=int)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("CV_JOBS", "8")))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    prop = a.prop
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    t0 = time.time()
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    warnings.simplefilter("ignore")
    sys.path.insert(0, HERE)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    known = known_findings(prop)
    try:
        import chainladder
        assert os.path.realpath(chainladder.__file__).startswith(os.path.realpath(REPO)), chainladder.__file__
        mod = importlib.import_module("cv.props." + prop.lower())
        mod_err = None
    except Exception as e:
        mod, mod_err = None, e
    if mod is None:
        traceback.print_exception(mod_err)
        print(f"INCONCLUSIVE property={prop} the library or the harness could not be imported")
        sys.exit(2)
    if a.replay:
        r = json.load(open(a.replay))
        os.environ["VERIF_TIER"] = r["tier"]
        ctx = Ctx(prop, r["seed"], r["tier"], r["case"])
        run_case(mod, ctx)
        for f in ctx.fails:
            print(f["key"], "|", f["msg"], "\n", f["witness"])
        print("desc:", ctx.desc)
        sys.exit(1 if ctx.fails else 0)
    if a.only is not None:
        ctx = Ctx(prop, seed, tier, a.only)
        st = run_case(mod, ctx)
        print(st, ctx.desc, dict(ctx.events))
        for f in ctx.fails:
            print(f["key"], "|", f["msg"], "\n", (f["witness"] or "").encode().decode("unicode_escape"))
        sys.exit(1 if ctx.fails else 0)

    n = a.cases or mod.CASES[tier]
    budget = getattr(mod, "BUDGET", {"quick": 150, "thorough": 780})[tier]
    deadline = t0 + budget
    hard = t0 + budget + 60
    nsh = max(1, min(a.jobs, n))
    tmp = os.path.join(HERE, "replays", f".shards-{prop}-{os.getpid()}")
    os.makedirs(tmp, exist_ok=True)
    sys.stdout.flush()
    pids = {}
    for k in range(nsh):
        pid = os.fork()
        if pid == 0:
            rc = 0
            try:
                os.setpgid(0, 0)
                shard(mod, prop, seed, tier, n, k, nsh, deadline, os.path.join(tmp, f"{k}.pkl"))
            except BaseException:
                traceback.print_exc()
                rc = 3
            sys.stdout.flush(); sys.stderr.flush()
            os._exit(rc)
        pids[pid] = k
    dead = {}
    while pids:
        try:
            pid, st = os.waitpid(-1, os.WNOHANG)
        except ChildProcessError:
            break
        if pid == 0:
            if time.time() > hard:
                for q in list(pids):
                    try:
                        os.killpg(q, signal.SIGKILL)
                    except OSError:
                        try: os.kill(q, signal.SIGKILL)
                        except OSError: pass
                    dead[pids.pop(q)] = "watchdog"
                break
            time.sleep(0.02)
            continue
        if pid in pids:
            k = pids.pop(pid)
            if st != 0:
                dead[k] = f"status {st}"
    tot = dict(done=0, skipped=0, unrun=0, events=Counter(), sigs=set(), fails=[], samples=[])
    for k in range(nsh):
        f = os.path.join(tmp, f"{k}.pkl")
        if not os.path.exists(f):
            dead.setdefault(k, "no result")
            continue
        r = pickle.load(open(f, "rb"))
        os.remove(f)
        for key in ("done", "skipped", "unrun"):
            tot[key] += r[key]
        tot["events"].update(r["events"]); tot["sigs"] |= r["sigs"]
        tot["fails"] += r["fails"]; tot["samples"] += r["samples"]
    try:
        os.rmdir(tmp)
    except OSError:
        pass

    viol, found = [], Counter()
    for f in sorted(tot["fails"], key=lambda f: (f["case"], f["key"])):
        hit = next((d for d in known if f["key"].startswith(d["key"])), None)
        if hit:
            found[hit["key"]] += 1
        else:
            viol.append(f)
    missing = [e for e, c in getattr(mod, "REQUIRE", {}).items() if tot["events"][e] < (c if n >= mod.CASES["quick"] else 1)]
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=tot["done"], distinct_nontrivial=len(tot["sigs"]),
                            rule=mod.RULE, samples=tot["samples"][:4],
                            cases_skipped_by_precondition=tot["skipped"],
                            cases_not_reached_in_time=tot["unrun"],
                            events_observed={k: v for k, v in sorted(tot["events"].items())},
                            known_findings_seen=dict(found)),
              assumptions=getattr(mod, "ASSUMPTIONS", ["the reference models in /verif/cv are correct", "numpy, pandas and scipy are correct"]),
              wall_s=round(time.time() - t0, 2), violations=len(viol))
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    for d in known:
        print(f"KNOWN-FINDING: property={prop} {d['what']} (seen {found[d['key']]} times in this run)")
    print(f"{prop} {tier} seed={seed}: {tot['done']} cases, {tot['skipped']} skipped, {tot['unrun']} unrun, "
          f"{len(tot['sigs'])} distinct, {tot['events']['calls']} calls, {tot['events']['checks']} checks, {ev['wall_s']}s")
    if a.v:
        for k, v in tot["events"].most_common():
            print("   ", k, v)
    if viol:
        f = viol[0]
        rp = os.path.join("replays", f"{prop}-{seed}-{tier}-{f['case']}.json")
        with open(os.path.join(HERE, rp), "w") as fh:
            json.dump(dict(property=prop, seed=seed, tier=tier, case=f["case"], failures=[x for x in viol if x["case"] == f["case"]]), fh, indent=1, default=str)
        seen = Counter(x["key"] for x in viol)
        for key, c in seen.most_common(12):
            x = next(y for y in viol if y["key"] == key)
            print(f"  [{c}x] {key}: case {x['case']}: {x['msg'][:300]}")
            if a.v:
                print("     ", x["witness"])
        print(f"VIOLATION property={prop} replay={rp}")
        sys.exit(1)
    if dead or missing or tot["done"] == 0 or len(tot["sigs"]) < 2:
        print(f"INCONCLUSIVE property={prop} dead={dead} missing_events={missing} done={tot['done']}")
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
