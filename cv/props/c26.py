from cv.methods import *
ID = "C26"
CASES = dict(quick=170, thorough=5000)
RULE = "random triangles and exposures through random pipelines, grid searches (nested parameters, estimators as parameters, several scores, several jobs) and votings (weights none, array at three ranks, list, dict, callable; dropped members; predictions on fewer origins), each compared with its parts fitted by hand one after another; distinct by table and settings"
REQUIRE = {"kind:pipe": 25, "kind:grid": 25, "kind:vote": 40, "chk:vote": 300, "chk:score": 60, "results_compared": 300, "vote:drop": 5, "vote:predict": 10}
BUDGET = {"quick": 200, "thorough": 800}


def step(rng, what):
    if what == "dev":
        return pick(rng, development(rng), cl.ClarkLDF(), cl.DevelopmentConstant(patterns={a: round(1 + 3.0 / (a + 2), 4) for a in range(1, 400)}, style="ldf"), development(rng))
    if what == "tail":
        return pick(rng, cl.TailConstant(1.07, decay=.6), cl.TailCurve("exponential"), cl.TailCurve("inverse_power"), cl.TailBondy())
    if what == "method":
        return pick(rng, cl.Chainladder(), cl.MackChainladder(), cl.BornhuetterFerguson(apriori=.8), cl.Benktander(apriori=.9, n_iters=3), cl.CapeCod(trend=.03, decay=.8), cl.ExpectedLoss(apriori=.7))
    return pick(rng, cl.Trend(.04), cl.Trend(-.02, axis="valuation"))


def case(ctx, i):
    rng = ctx.rng
    kw = mixed_grain(rng)
    t, s = regular(rng, **kw, cumulative=bool(rng.random() < .8), late=False, max_cells=5000)
    if t.shape[3] < 4 or t.shape[2] < 4:
        raise Skip()
    t = t.set_backend("numpy")
    sw = exposure(rng, t)
    if rng.random() < .15:
        t = t.set_backend("sparse")
    kind = ("pipe", "grid", "vote", "vote")[i % 4]
    ctx.event("kind:" + kind)
    ctx.note(spec=brief(s), kind=kind, backend=t.array_backend); ctx.sig = [brief(s), kind, t.array_backend]
    dict(pipe=pipe, grid=grid, vote=vote)[kind](ctx, rng, t, sw, s)


def by_hand(steps, t, sw, upto=None):
    """fit clones of the steps one after another"""
    x, out = t, []
    for n, (name, e) in enumerate(steps):
        e = sk_clone(e)
        e.fit(x, sample_weight=sw)
        out.append((name, e))
        if n < len(steps) - 1:
            x = e.transform(x)
    return out, x


from sklearn.base import clone as sk_clone


def settings(e):
    return freeze({k: v for k, v in e.get_params(deep=True).items()})


def pipe(ctx, rng, t, sw, s):
    parts = [("a", step(rng, "adj"))] * int(rng.random() < .25) + [("d", step(rng, "dev"))] * int(rng.random() < .9) + [("t", step(rng, "tail"))] * int(rng.random() < .6)
    final = rng.random() < .85
    if final or not parts:
        parts.append(("m", step(rng, "method")))
        final = True
    p = cl.Pipeline(parts)
    ctx.note(steps=str([str(e) for _, e in parts])[:300]); ctx.sig.append(str(parts))
    before = {n: settings(e) for n, e in parts}
    b4 = state(t), state(sw)
    try:
        hand, x = by_hand(parts, t, sw)
    except Exception as e:
        raise Skip()
    f = ctx.call("fit", p.fit, t, sample_weight=sw)
    same_state(ctx, "unchanged", b4[0], state(t), "triangle"); same_state(ctx, "unchanged", b4[1], state(sw), "exposure")
    ctx.check(f is p and [n for n, _ in p.steps] == [n for n, _ in parts], "steps", "fit returns another object or step order changed")
    for (n, e), (_, h) in zip(p.steps, hand):
        same_results(ctx, f"step:{n}", results(e), results(h), 0.0, f"step {n} ({type(e).__name__})", 0.0)
        ctx.check(same(before[n], settings(e)) is None, "settings", f"settings of step {n} changed")
    if final:
        q, h = sw, hand[-1][1]
        u = p.predict(t, sample_weight=q)
        y = t
        for _, e in hand[:-1]:
            y = e.transform(y)
        v = h.predict(y, sample_weight=q)
        same_results(ctx, "predict", results(u), results(v), 0.0, "prediction", 0.0)
        w = cl.Pipeline([(n, sk_clone(e)) for n, e in parts]).fit_predict(t, sample_weight=sw)
        same_results(ctx, "fit_predict", results(w), results(v), 0.0, "fit_predict", 0.0)
    else:
        y = p.fit_transform(t, sample_weight=sw) if False else p.transform(t)
        z = hand[-1][1].transform(x)
        same_results(ctx, "transform", results(y), results(z), 0.0, "transformed triangle", 0.0)
        same_triangle(ctx, "transform", y, z, 0, 0)


def grid(ctx, rng, t, sw, s):
    r = rng.random()
    ibnr = lambda m: float(np.nan_to_num(dense(fin(m).ibnr_.set_backend("numpy").values)).sum())
    top = lambda m: float(np.nan_to_num(dense(fin(m).ultimate_.set_backend("numpy").values)).max())
    last = lambda m: float(np.nan_to_num(dense(fin(m).cdf_.set_backend("numpy").values)).max())
    scoring = pick(rng, ibnr, {"ibnr": ibnr, "top": top}, {"cdf": last, "ibnr": ibnr, "top": top})
    if r < .3:
        est = cl.Pipeline([("d", cl.Development()), ("m", cl.Chainladder())])
        g = {"d__average": ["volume", "simple"], "d__n_periods": [-1, 3]}
    elif r < .5:
        est = cl.Pipeline([("d", cl.Development()), ("t", cl.TailConstant()), ("m", cl.CapeCod())])
        g = [{"t__tail": [1.0, 1.1], "m__trend": [0, .05]}, {"m__decay": [.5, 1]}]
    elif r < .75:
        est = cl.Pipeline([("d", cl.Development()), ("m", cl.BornhuetterFerguson())])
        g = {"d": [cl.Development(average="simple"), cl.ClarkLDF()], "m": [cl.BornhuetterFerguson(apriori=.7), cl.Benktander(apriori=.7, n_iters=2)], "m__apriori": [.6, .9]}
        if rng.random() < .5:
            g.pop("m__apriori")
    else:
        est = cl.Benktander()
        g = {"apriori": [.5, 1.0, .8], "n_iters": [1, 4]}
    gs = cl.GridSearch(est, g, scoring, n_jobs=2 if rng.random() < .02 and r < .3 else None)
    ctx.note(grid=str(g)[:300], jobs=str(gs.n_jobs)); ctx.sig += [str(g), str(gs.n_jobs)]
    b4 = settings(est), state(t), state(sw)
    # the result of each combination by hand
    want = []
    sc = scoring if isinstance(scoring, dict) else {"score": scoring}
    for item in cl_grid(g):
        m = sk_clone(est).set_params(**{k: sk_clone(v, safe=False) for k, v in item.items()})
        try:
            m.fit(t, sample_weight=sw)
        except Exception:
            raise Skip()
        want.append((item, {k: f(m) for k, f in sc.items()}))
    ctx.call("fit", gs.fit, t, sample_weight=sw)
    ctx.check(same(b4[0], settings(est)) is None and not fitted(est), "unchanged", "the searched estimator was changed")
    for d in (g if isinstance(g, list) else [g]):
        for v in d.values():
            for x in v:
                ctx.check(not fitted(x), "unchanged", f"{x} from the grid was fitted")
    same_state(ctx, "unchanged", b4[1], state(t), "triangle"); same_state(ctx, "unchanged", b4[2], state(sw), "exposure")
    R = gs.results_
    ctx.check(len(R) == len(want), "rows", f"{len(R)} results for {len(want)} combinations")
    used = set()
    for item, score in want:
        hits = [n for n in range(len(R)) if n not in used and all(k in R.columns and eq(R.iloc[n][k], v) for k, v in item.items()) and all(pd.isna(R.iloc[n][c]) for c in R.columns if c not in item and c not in sc)]
        if not ctx.check(len(hits) >= 1, "rows", f"no result for {item}"):
            continue
        used.add(hits[0])
        for k, v in score.items():
            x = R.iloc[hits[0]][k]
            ctx.check(near(float(x), v, 1e-12), "score", lambda: f"{item}: {k} reported as {x}, fitting alone gives {v}")


def eq(a, b):
    return a is b or (hasattr(a, "get_params") and hasattr(b, "get_params") and str(a) == str(b)) or (not hasattr(a, "get_params") and not hasattr(b, "get_params") and a == b)


def fin(m):
    return m.steps[-1][1] if hasattr(m, "steps") else m


def fitted(e):
    if hasattr(e, "steps"):
        return any(fitted(x) for _, x in e.steps)
    return hasattr(e, "get_params") and any(k.endswith("_") and not k.startswith("_") for k in vars(e))


def cl_grid(g):
    from itertools import product
    for d in (g if isinstance(g, list) else [g]):
        for v in product(*d.values()):
            yield dict(zip(d, v))


def vote(ctx, rng, t, sw, s):
    n = int(pick(rng, 1, 2, 3, 3, 4))
    ests = [(f"e{j}", step(rng, "method")) for j in range(n)]
    K, C, O = t.shape[:3]
    dropped = [j for j in range(n) if n > 1 and rng.random() < .12][:n - 1]
    use = [(nm, "drop" if j in dropped else e) for j, (nm, e) in enumerate(ests)]
    if dropped:
        ctx.event("vote:drop")
    wt = lambda *sh: np.round(rng.uniform(.1, 3, sh), 2) * (rng.random(sh) < .8) + .01
    default = None if rng.random() < .4 else tuple(float(x) for x in wt(n))
    dflt = np.array(default if default is not None else [1.0] * n)
    kind = pick(rng, "none", "array2", "array3", "array4", "list", "dict", "callable")
    full = np.broadcast_to(dflt, (K, C, O, n)).copy()
    org = t.origin
    if kind == "none":
        w = None
    elif kind in ("array2", "list"):
        w = wt(O, n); full[:] = w
        w = w.tolist() if kind == "list" else w
    elif kind == "array3":
        w = wt(C, O, n); full[:] = w
    elif kind == "array4":
        w = wt(K, C, O, n); full[:] = w
    elif kind == "dict":
        pos = [int(x) for x in rng.permutation(O)[: int(rng.integers(1, O))]]
        w = {}
        for p in pos:
            w[str(org[p])] = tuple(wt(n)); full[:, :, p] = w[str(org[p])]
    else:
        a, b = wt(n), wt(n)
        cut = org[O // 2]
        w = lambda o: tuple(a) if o < cut else tuple(b)
        full[:, :, :O // 2] = a; full[:, :, O // 2:] = b
    ctx.event("vote:" + kind)
    est = cl.VotingChainladder(estimators=use, weights=w, default_weighting=default)
    ctx.note(kind=kind, n=n, dropped=dropped, members=str([str(e) for _, e in use])[:300]); ctx.sig += [kind, n, dropped, str(use)]
    b4 = state(t), state(sw), settings(est)
    ctx.call("fit", est.fit, t, sample_weight=sw)
    same_state(ctx, "unchanged", b4[0], state(t), "triangle"); same_state(ctx, "unchanged", b4[1], state(sw), "exposure")
    ctx.check(same(b4[2], settings(est)) is None, "unchanged", f"settings changed by fitting: {same(b4[2], settings(est))}")
    ctx.check(not any(fitted(e) for _, e in use), "unchanged", "a supplied member was fitted")
    keep = [j for j in range(n) if j not in dropped]
    ctx.check(len(est.estimators_) == len(keep) and (not hasattr(est, "named_estimators_") or all((est.named_estimators_[use[j][0]] == "drop") == (j in dropped) for j in range(n))), "members", f"{len(est.estimators_)} members fitted")
    compare(ctx, est.ultimate_, [sk_clone(ests[j][1]).fit(t, sample_weight=sw).ultimate_ for j in keep], full[..., keep], "ultimate")
    r = rng.random()
    if r < .5:
        ctx.event("vote:predict")
        x, q, f = t, sw, full
        if r < .25:
            a = int(rng.integers(0, O - 1)); b = int(rng.integers(a + 1, O + 1))
            x, q, f = t[(t.origin >= t.origin[a]) & (t.origin <= t.origin[b - 1])], sw[(sw.origin >= sw.origin[a]) & (sw.origin <= sw.origin[b - 1])], full[:, :, a:b]
            if x.valuation_date != t.valuation_date or x.shape[2] != b - a:
                return
        try:
            parts = [sk_clone(ests[j][1]).fit(t, sample_weight=sw).predict(x, sample_weight=q).ultimate_ for j in keep]
        except Exception:
            return
        ctx.note(pred=f"{x.shape}")
        p = ctx.call("predict", est.predict, x, sample_weight=q)
        compare(ctx, p.ultimate_, parts, f[..., keep], "predicted ultimate")


def compare(ctx, got, parts, w, what):
    G = Snap(got.set_backend("numpy"))
    P = [Snap(p.set_backend("numpy")) for p in parts]
    ctx.check(all(G.odims == p.odims and G.kdims == p.kdims for p in P) and G.arr.shape == w.shape[:3] + (1,), "labels", f"{what}: {G.meta()}")
    if G.arr.shape != w.shape[:3] + (1,):
        return
    A = sum(np.nan_to_num(p.arr[..., 0]) * w[..., j] for j, p in enumerate(P)) / w.sum(-1)
    X = np.nan_to_num(G.arr[..., 0])
    sc = np.abs(A).max(initial=1)
    for k, c, o in np.ndindex(*A.shape):
        ctx.check(near(X[k, c, o], A[k, c, o], 1e-9, 1e-10 * sc), "vote", lambda: f"{what} of {G.kdims[k]} {G.vdims[c]} origin {mstart(G.odims[o]).date()}: {X[k, c, o]}, weighted average of the members {A[k, c, o]} (weights {w[k, c, o]})")
