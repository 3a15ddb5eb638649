"""C37: the diagnostics of a fitted method are the method's own numbers"""
from cv.zoo import *
from cv.methods import *

ID = "C37"
CASES = dict(quick=150, thorough=3500)
RULE = "Every reserving method and ensemble, fitted directly or at the end of a pipeline with random development and tail steps, on random triangles (grains, segments, columns, cumulative and incremental, dense and sparse): model_diagnostics lists per column, index member and origin the latest amount and the movements since the start of the month, quarter and year of the valuation date recomputed from the cells, the fitted ultimate and IBNR, the expected emergence of each following period recomputed as ultimate over cumulative factor at successive ages, and the prior expectation; its index holds the column, the model name or alias and the member. With groupby they are the totals of the members of each group. The fitted model, the data and the exposure are unchanged and a second call gives the same."
REQUIRE = {"diagnostics": 100, "grouped": 15, "run_off_cells": 500, "movement_cells": 800, "pipelines": 20, "apriori": 20}
BUDGET = {"quick": 200, "thorough": 2400}
METHODS = ["Chainladder", "MackChainladder", "ExpectedLoss", "BornhuetterFerguson", "Benktander", "CapeCod", "VotingChainladder"]


def start(vdate, freq):
    d = pd.Timestamp(vdate)
    m = {"M": d.month, "Q": (d.month - 1) // 3 * 3 + 1, "Y": 1}[freq]
    return mnum(pd.Timestamp(d.year, m, 1))


def cellmonths(s):
    """month number in which each cell is valued (origin x age)"""
    o = np.array(s.odims)[:, None]
    d = np.array(s.ddims, float)[None, :]
    return o + d.astype(int) - 1


def case(ctx, i):
    r = ctx.rng
    name = METHODS[i % len(METHODS)]
    est = ZOO[name]["make"](r)
    kw = {}
    if r.random() < .35:
        kw = dict(n_key=int(r.integers(2, 5)), n_levels=2)
    og = int(r.choice([12, 12, 3, 6, 1]))
    t, sw, s = data(r, "plain", og=og, n_o=int(r.integers(4, 9)) if og > 1 else int(r.integers(6, 16)), **kw)
    if r.random() < .3:
        t = t.cum_to_incr()
    if r.random() < .25:
        t, sw = t.set_backend("sparse"), sw.set_backend("sparse")
    steps = []
    if r.random() < .7:
        steps.append(("dev", development(r)))
        if r.random() < .6:
            steps.append(("tail", pick(r, cl.TailConstant(1.08), cl.TailCurve(extrap_periods=10))))
    weight = sw if ZOO[name].get("weight") else None
    pipe = bool(steps) and r.random() < .6
    X = t
    if pipe:
        model = cl.Pipeline(steps + [("model", est)])
        ctx.event("pipelines")
    else:
        model = est
        for _, x in steps:
            X = x.fit_transform(X)
    try:
        fit(model, X, weight)
    except Exception:
        raise Skip()  # fits are the business of other properties
    m = model.steps[-1][-1] if pipe else model
    alias = None if r.random() < .5 else "alias"
    by = None
    keys = list(t.key_labels)
    if len(keys) > 1 and r.random() < .7:
        by = pick(r, *keys)
    ctx.note(spec=brief(s), est=str(est)[:100], steps=str(steps)[:160], by=by, og=og); ctx.sig = [brief(s), str(est), str(steps), by, alias]
    frozen, data0 = results(model), (state(t), state(sw), state(X))
    kw = {} if by is None else dict(groupby=by)
    d = ctx.call("model_diagnostics", cl.model_diagnostics, model, alias, **kw)
    ctx.event("diagnostics")
    same_results(ctx, "unchanged", frozen, results(model), 0.0, f"{name} after its diagnostics", 0.0)
    for a, b, w in zip(data0, (t, sw, X), ("data", "exposure", "data")):
        same_state(ctx, "unchanged:data", a, state(b), f"{w} after the diagnostics of {name}")
    d2 = cl.model_diagnostics(model, alias, **kw)
    r2 = same(freeze(d), freeze(d2), 0.0, 0.0)
    ctx.check(r2 is None, "again", f"{name}: a second call gives {r2}")

    # ---- the fitted numbers, per member -----------------------------------
    c = t.incr_to_cum().val_to_dev().set_backend("numpy")
    S = Snap(c)
    A = np.nan_to_num(S.arr)
    inc = np.diff(A, axis=-1, prepend=0)
    vm = mnum(t.valuation_date)
    months = cellmonths(S)
    inc = inc * (months <= vm)
    lat = inc.sum(-1)
    moved = {f: (inc * ((months >= start(t.valuation_date, f)) & (months <= vm))).sum(-1) for f in "MQY"}
    U = Snap(m.ultimate_)
    ult = np.nan_to_num(U.arr)[..., 0]
    ibnr = ult - lat
    # expected emergence: ultimate / cdf at the ages of the following valuations
    cdf = Snap(m.cdf_)
    ages = np.array(cdf.ddims, float)
    og_, dg = S.og, S.dg
    step = {"M": 1, "Q": 3, "S": 6, "Y": 12}.get(t.development_grain)
    at = vm - np.array(S.odims) + 1  # age of each origin at the valuation date
    n_run = {"M": 12, "S": 6, "Q": 4, "Y": 1}[t.development_grain]
    # nothing more is expected past the last age of the pattern, what a tail leaves stays for the ultimate
    top = max(ages.max(), max(S.ddims))
    def expected(age):
        f = np.ones(ult.shape)
        for o in range(ult.shape[2]):
            k = np.where(ages == min(age[o], top))[0]
            if len(k):
                g = np.nan_to_num(cdf.arr[:, :, min(o, cdf.arr.shape[2] - 1), k[0]], nan=1.0)
                f[:, :, o] = np.broadcast_to(g, f.shape[:2])
        return ult / f
    run = []
    for n in range(1, n_run + 1):
        x, y = expected(at + n * step), expected(at + (n - 1) * step)
        run.append(x - y)
    apr = None
    if hasattr(m, "expectation_"):
        apr = np.nan_to_num(Snap(m.expectation_).arr)[..., 0]
        ctx.event("apriori")
    # ---- groups ---------------------------------------------------------------
    members = [tuple(map(str, k)) for k in S.kdims]
    if by is None:
        groups, labels = [[k] for k in range(len(members))], members
    else:
        ctx.event("grouped")
        n = keys.index(by)
        names = sorted({k[n] for k in members})
        groups, labels = [[j for j, k in enumerate(members) if k[n] == g] for g in names], [(g,) for g in names]
    g = lambda v: np.stack([v[q].sum(0) for q in groups])
    # ---- what is reported -----------------------------------------------------
    D = Snap(d)
    title = alias or type(m).__name__
    cols = list(c.columns)
    want = [(str(q), title) + k for q in cols for k in labels]
    got = [tuple(map(str, k)) for k in D.kdims]
    if not ctx.check(sorted(got) == sorted(want), "index", f"{name}: lists {got[:4]} ({len(got)}) instead of {want[:4]} ({len(want)})"):
        return
    ctx.check(list(d.key_labels)[:2] == ["Measure", "Model"] and list(d.key_labels)[2:] == (keys if by is None else [by]), "labels", f"{name}: index labels {list(d.key_labels)}")
    ctx.check(list(D.odims) == list(S.odims), "origins", f"{name}: origins {D.odims} instead of {S.odims}")
    exp = {"Latest": lat, "IBNR": ibnr, "Ultimate": ult, "Year Incremental": moved["Y"]}
    if t.development_grain in ("M", "Q"):
        exp["Quarter Incremental"] = moved["Q"]
    if t.development_grain == "M":
        exp["Month Incremental"] = moved["M"]
    runs = [x for x in d.columns if str(x).startswith("Run Off ")]
    last = int(max(ages)) if len(ages) else 0
    ctx.check(0 < len(runs) <= n_run and runs == [f"Run Off {k + 1}" for k in range(len(runs))], "run_off:periods", f"{name}: {runs}")
    for k in range(len(runs)):
        exp[f"Run Off {k + 1}"] = run[k]
    if apr is not None:
        exp["Apriori"] = np.broadcast_to(apr, ult.shape)
    ctx.check(set(exp) <= set(map(str, d.columns)), "columns", f"{name}: {list(d.columns)} lacks {set(exp) - set(map(str, d.columns))}")
    for what, v in exp.items():
        if what not in list(d.columns):
            continue
        v = g(v)
        k = list(d.columns).index(what)
        sc = max(np.abs(ult).max(initial=0.0), np.abs(lat).max(initial=0.0), 1e-9)
        for q, col in enumerate(cols):
            for j, lab in enumerate(labels):
                row = got.index((str(col), title) + lab)
                x = np.nan_to_num(D.arr[row, k, :, 0])
                ctx.event("run_off_cells" if what.startswith("Run") else "movement_cells", len(x))
                ctx.check(close(x, v[j, q], 1e-8, 1e-9 * sc), f"value:{what.rstrip(' 0123456789')}", lambda: f"{name} {what} of {col} {lab}{' grouped' if by else ''}: {first_diff(x, v[j, q], 1e-8, 1e-9 * sc)}")
