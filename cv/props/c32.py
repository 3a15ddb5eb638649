from cv.methods import *
from sklearn.base import clone as sk_clone
import copy, dill
ID = "C32"
CASES = dict(quick=130, thorough=5000)
RULE = "random histories of fit, failed fit, transform, predict, fit_transform, set_params, cloning, copying and reading on one estimator (every estimator of the library, pipelines, votings and grid searches, members shared between them) over several triangles of different shapes, with and without exposure and backends; after every fit all results, carried patterns and predictions compared with a fresh estimator on pristine copies of the data; distinct by history"
REQUIRE = {"fits": 200, "chk:fitted": 180, "chk:transformed": 60, "chk:predicted": 20, "op:set": 15, "op:failed": 8, "chk:others": 40}
BUDGET = {"quick": 240, "thorough": 840}
NAMES = list(ZOO) + ["GridSearch", "SharedMember", "SharedMember"]
NOT_RESULT = {"X_", "feature_names_in_", "n_features_in_"}


def everything(est):
    """all fitted attributes, computed and stored"""
    out = results(est)
    if not hasattr(est, "named_steps"):
        for a in vars(est):
            if a.endswith("_") and not a.startswith("_") and a not in out and a not in NOT_RESULT:
                f = freeze(getattr(est, a))
                if f[0] not in ("obj", "fn"):
                    out[a] = f
    return out


def attempt(f):
    try:
        return "ok", f()
    except (Abort, Skip):
        raise
    except Exception as e:
        return "raised", f"{type(e).__name__}: {e}"[:160]


def twin(t):
    return None if t is None else copy.deepcopy(t)


def inputs(rng, name, n):
    """several data sets that suit the estimator, the first steps of a method applied"""
    out = []
    for j in range(n):
        kw = dict(n_o=int(rng.integers(5, 8)))
        if j and rng.random() < .4:
            kw["og"] = out[0]["og"]
        est, t, sw, s = build(rng, name, **kw)
        z = ZOO[name]
        first = []
        if z["kind"] in ("tail", "method") and rng.random() < .85:
            first.append(development(rng))
            if z["kind"] == "method" and rng.random() < .4:
                first.append(pick(rng, cl.TailConstant(1.06, decay=.6), cl.TailCurve("inverse_power"), cl.TailBondy()))
        x = t
        for f in first:
            x = f.fit_transform(x)
        if sw is None and name in ("ClarkLDF", "TailClark") and rng.random() < .5:
            sw = exposure(rng, t)
        if rng.random() < .2 and z["kind"] != "dev":
            x = x.set_backend("sparse")
        out.append(dict(x=x, sw=sw, og=s.og, spec=brief(s), first=str(first)[:60], est=est, raw=t))
    return out


def case(ctx, i):
    rng = ctx.rng
    name = NAMES[i % len(NAMES)]
    if name == "GridSearch":
        return grid(ctx, rng)
    if name == "SharedMember":
        return shared(ctx, rng)
    slow = ZOO[name].get("slow", False)
    if slow and rng.random() < .5:
        raise Skip()
    pool = inputs(rng, name, 2 if slow else int(rng.integers(2, 4)))
    est = pool[0]["est"]
    if name == "TweedieGLM":
        est.set_params(max_iter=40)
    hist = []
    ctx.note(est=str(est)[:100], data=[p["spec"] for p in pool], first=[p["first"] for p in pool], history=hist)
    pristine = [dict(x=twin(p["x"]), sw=twin(p["sw"]), raw=twin(p["raw"])) for p in pool]
    ctx.event("kind:" + ZOO[name]["kind"])
    fitted, n_fits = None, 0
    weight = ZOO[name].get("weight")
    bystander = None
    if rng.random() < .5:
        # another estimator of the same kind, fitted before and compared after
        other = ZOO[name]["make"](rng)
        if name == "Trend":
            other = sk_clone(est)
        if name == "TweedieGLM":
            other.set_params(max_iter=30)
        st, _ = attempt(lambda: fit(other, pool[0]["x"], pool[0]["sw"] if weight else None))
        if st == "ok":
            bystander = (other, everything(other))
    for step in range(3 if slow else int(rng.integers(3, 7))):
        op = "fit" if fitted is None else pick(rng, "fit", "fit", "fit", "transform", "predict", "set", "failed", "read", "clone", "fit_transform")
        j = int(rng.integers(len(pool)))
        p, q = pool[j], pristine[j]
        sw = p["sw"] if weight or rng.random() < .6 else None
        qsw = None if sw is None else q["sw"]
        if op in ("fit", "fit_transform"):
            hist.append(f"{op}({j}{'' if sw is None else ',exposure'})")
            if op == "fit_transform" and hasattr(est, "transform"):
                a, va = attempt(lambda: est.fit_transform(p["x"]) if sw is None else est.fit_transform(p["x"], sample_weight=sw))
            else:
                a, va = attempt(lambda: fit(est, p["x"], sw)); va = None if a == "ok" else va
            fresh = sk_clone(est)
            ft = op == "fit_transform" and hasattr(est, "transform")
            b, vb = attempt(lambda: fit(fresh, twin(q["x"]), twin(qsw)) if not ft else fresh.fit_transform(twin(q["x"])) if sw is None else fresh.fit_transform(twin(q["x"]), sample_weight=twin(qsw)))
            if not ctx.check(a == b, "fit-outcome", lambda: f"{est} after {hist}: {a} {va}, a fresh one {b} {vb}"):
                return
            if a != "ok":
                if not ("Mack" in str(va) or "sample_weight" in str(va)):
                    ctx.event("both raised")
                fitted = None
                continue
            n_fits += 1; ctx.event("fits")
            ea, eb = everything(est), everything(fresh)
            fitted = (j, fresh)
            same_results(ctx, "fitted", eb, ea, 1e-11, f"{est} after {hist} and a fresh one:", 1e-11)
            ctx.event("chk:fitted")
            if op == "fit_transform" and va is not None and isinstance(va, cl.Triangle):
                same_results(ctx, "transformed", results(vb), results(va), 1e-11, f"transformed by {est} after {hist}:", 1e-11)
                ctx.event("chk:transformed")
        elif op == "set":
            new = ZOO[name]["make"](rng).get_params(deep=False)
            old = est.get_params(deep=False)
            ks = list(new) if name in ("Trend", "ParallelogramOLF", "Pipeline") else [k for k in new if rng.random() < .6]
            if name == "Trend":
                new["dates"] = old["dates"] if isinstance(new["trends"], list) == isinstance(old["trends"], list) else None
                if isinstance(new["trends"], list) and new["dates"] is None:
                    continue
            if name in ("TweedieGLM",):
                new["max_iter"] = 40
            est.set_params(**{k: new[k] for k in ks})
            ctx.event("op:set"); hist.append("set(" + ",".join(ks)[:80] + ")")
            fitted = None
        elif op == "failed":
            bad = pick(rng, None, 3, p["raw"].iloc[:, :, :1])
            attempt(lambda: est.fit(bad))
            ctx.event("op:failed"); hist.append("fit(unusable)"); fitted = None
        elif op == "read":
            for a in ("full_triangle_", "ibnr_", "cdf_", "scale_", "norm_resid_", "full_expectation_", "hat_"):
                attempt(lambda: getattr(est, a))
            hist.append("read")
        elif op == "clone":
            c = sk_clone(est) if slow or rng.random() < .5 else dill.loads(dill.dumps(est))
            attempt(lambda: fit(c, p["x"], sw))
            hist.append(f"fit a copy({j})")
        elif op == "transform" and hasattr(est, "transform"):
            a, va = attempt(lambda: est.transform(p["x"]))
            b, vb = attempt(lambda: fitted[1].transform(twin(q["x"])))
            hist.append(f"transform({j})")
            if not ctx.check(a == b, "transform-outcome", lambda: f"{est} after {hist}: {a} {va}, fresh {b} {vb}"):
                return
            if a == "ok":
                same_results(ctx, "transformed", results(vb), results(va), 1e-11, f"transformed by {est} after {hist}:", 1e-11)
                r = same(freeze(vb), freeze(va), 1e-11, 1e-11, "cells") if isinstance(va, cl.Triangle) else None
                ctx.check(r is None, "transformed-cells", lambda: f"{est} after {hist}: {r}")
                ctx.event("chk:transformed")
        elif op == "predict" and hasattr(est, "predict"):
            a, va = attempt(lambda: est.predict(p["x"]) if sw is None else est.predict(p["x"], sample_weight=sw))
            b, vb = attempt(lambda: fitted[1].predict(twin(q["x"])) if sw is None else fitted[1].predict(twin(q["x"]), sample_weight=twin(qsw)))
            hist.append(f"predict({j})")
            if not ctx.check(a == b, "predict-outcome", lambda: f"{est} after {hist}: {a} {va}, fresh {b} {vb}"):
                return
            if a == "ok":
                same_results(ctx, "predicted", results(vb), results(va), 1e-11, f"predicted by {est} after {hist}:", 1e-11)
                ctx.event("chk:predicted")
        if fitted and op not in ("fit", "fit_transform"):
            same_results(ctx, "kept", everything(fitted[1]), everything(est), 1e-11, f"{est} after {hist}, results of its last fit:", 1e-11)
    for p, q in zip(pool, pristine):
        for k in ("x", "sw", "raw"):
            if p[k] is not None:
                same_state(ctx, "data", state(q[k]), state(p[k]), f"{name}: triangle used in {hist}")
    if bystander:
        same_results(ctx, "others", bystander[1], everything(bystander[0]), 0.0, f"another {name} after {hist}:", 0.0)
        ctx.event("chk:others")
    ctx.sig = [name, str(hist), str(est)]


def grid(ctx, rng):
    t, sw, s = data(rng, n_key=1, n_cols=1, n_o=6)
    t2, sw2, s2 = data(rng, n_key=1, n_cols=1, n_o=5)
    pipe = cl.Pipeline([("dev", cl.Development()), ("tail", cl.TailConstant(1.03)), ("m", cl.Benktander())])
    g = cl.GridSearch(pipe, dict(dev__average=["simple", "volume"], m__n_iters=[1, 3], m__apriori=[.6, 1.0][: int(rng.integers(1, 3))]), scoring=dict(ibnr=lambda x: float(np.nansum(dense(x.named_steps.m.ibnr_.values)))), n_jobs=None)
    ctx.note(spec=[brief(s), brief(s2)]); ctx.sig = ["grid", brief(s), brief(s2)]
    ctx.event("kind:grid")
    runs = []
    for x, w in ((t, sw), (t2, sw2), (t, sw)):
        ctx.call("fit", g.fit, x, m__sample_weight=w)
        runs.append(g.results_.copy()); ctx.event("fits")
    ctx.check(runs[0].equals(runs[2]), "grid", lambda: f"repeating a grid search gives {runs[2]} after {runs[0]}")
    f = sk_clone(g); f.fit(twin(t2), m__sample_weight=twin(sw2))
    ctx.check(f.results_.equals(runs[1]), "grid", lambda: f"a fresh grid search gives {f.results_}, the used one {runs[1]}")
    ctx.check(pipe.get_params()["m__n_iters"] == 1 and pipe.get_params()["dev__average"] == "volume" and not hasattr(pipe.named_steps.m, "ultimate_"), "grid-estimator", lambda: f"the searched pipeline became {pipe}")


def shared(ctx, rng):
    """one member used in two ensembles and alone: each result is that of its own last fit"""
    kind = pick(rng, "voting", "pipeline")
    a, wa, s = data(rng, n_o=6)
    b, wb, s2 = data(rng, n_o=5)
    ctx.note(spec=[brief(s), brief(s2)], kind=kind); ctx.sig = ["shared", kind, brief(s), brief(s2)]
    ctx.event("kind:shared")
    cc = cl.CapeCod(trend=.03)
    if kind == "voting":
        mk = lambda: cl.VotingChainladder(estimators=[("cc", cc), ("bf", cl.BornhuetterFerguson(.8))], default_weighting=(1, 2))
        u, v = mk(), mk()
    else:
        tail = cl.TailConstant(1.05)
        mk = lambda: cl.Pipeline([("dev", cl.Development()), ("tail", tail), ("m", cl.CapeCod(decay=.9))])
        u, v = mk(), mk()
    ua = freeze(ctx.call("fit", fit, u, a, wa).predict(a, sample_weight=wa).ultimate_)
    fu = everything(u) if kind == "voting" else None
    ctx.call("fit", fit, v, b, wb); ctx.event("fits", 2)
    if kind == "voting":
        cc.fit(b, sample_weight=wb)
        same_results(ctx, "others", fu, everything(u), 0.0, "a voting after its member was fitted elsewhere:", 0.0)
        ub = freeze(u.predict(a, sample_weight=wa).ultimate_)
        r = same(ua, ub, 1e-12, 1e-12, "ultimate_")
        ctx.check(r is None, "shared", lambda: f"predictions of a voting change when its member is fitted elsewhere: {r}")
        ctx.event("chk:others")
    ctx.call("fit", fit, u, a, wa)
    uc = freeze(u.predict(a, sample_weight=wa).ultimate_)
    r = same(ua, uc, 1e-12, 1e-12, "ultimate_")
    ctx.check(r is None, "shared", lambda: f"refitting after another fit of a shared member: {r}")
