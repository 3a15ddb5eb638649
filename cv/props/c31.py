from cv.methods import *
from scipy.optimize import minimize as fmin
ID = "C31"
CASES = dict(quick=110, thorough=4000)
RULE = "random triangles (several segments, columns, groupings, grains, backends, noisy and negative increments) with Clark's growth curves, loglogistic and weibull, with exposures of any scale or without, as development and as tail with attachment and truncation ages; factors, fitted increments, scale and residuals recomputed from the fitted parameters and the likelihood searched around them; distinct by table and settings"
REQUIRE = {"curve:loglogistic": 25, "curve:weibull": 25, "method:ldf": 25, "method:cape_cod": 20, "tail": 20, "chk:likelihood": 120, "chk:ldf": 200, "chk:fits": 800, "grouped": 5, "shared exposure": 3, "mixed grains": 6, "left the diagonal": 5}
BUDGET = {"quick": 240, "thorough": 840}
OFFSET = {12: 6.0, 6: 3.0, 3: 1.5, 1: 0.5}


def G(curve, age, om, th):
    age = np.maximum(np.asarray(age, float), 0)
    with np.errstate(all="ignore"):
        g = 1 / (1 + (th / age) ** om) if curve == "loglogistic" else 1 - np.exp(-((age / th) ** om))
    return np.where(age > 0, g, 0.0)


def fitted(curve, par, ages, og, latest, last, expo):
    """expected increments of every origin and age"""
    off = OFFSET[og]
    end = np.asarray(ages, float) - off
    step = np.diff(np.concatenate([[0], G(curve, end, *par[:2])]))
    u = expo * par[2] if expo is not None else latest / G(curve, np.asarray(last, float) - off, *par[:2])
    return u[:, None] * step[None]


def loglik(curve, par, inc, ages, og, latest, last, expo):
    f = fitted(curve, par, ages, og, latest, last, expo)
    with np.errstate(all="ignore"):
        l = inc * np.log(f) - f
    return float(np.nansum(l))


def case(ctx, i):
    rng = ctx.rng
    og = int(pick(rng, 12, 12, 3, 6, 1))
    dg = int(pick(rng, *[d for d in (1, 3, 6) if d < og])) if og > 1 and rng.random() < .2 else og
    curve = ("loglogistic", "weibull")[i % 2]
    cc = (i // 2) % 2 == 1
    t, s = regular(rng, og=og, dg=dg, n_o=int(rng.integers(5, 9)) if dg > 1 or og == 1 else 4, n_key=int(pick(rng, 1, 1, 2, 3)), n_cols=int(pick(rng, 1, 1, 2)), partial=False, late=False, cumulative=True)
    t = t.set_backend("numpy")
    if rng.random() < .15 and t.shape[3] > 4:
        t = t[t.development <= t.development.iloc[-2]]
        ctx.event("left the diagonal")
    if dg != og:
        ctx.event("mixed grains")
    S = Snap(t)
    K, C, O, D = S.arr.shape
    if [int(d) for d in S.ddims] != [dg * (n + 1) for n in range(D)]:
        raise Skip()
    og = dg
    a = S.arr.copy(); seen = ~np.isnan(a)
    true = pick(rng, "loglogistic", "weibull")
    lvl = np.nanmean(np.abs(a)) * float(pick(rng, 1, 1, 100))
    noise = float(pick(rng, .02, .15, .3))
    for k in range(K):
        for c in range(C):
            p = (float(rng.uniform(.9, 1.8)), float(rng.uniform(1, 3)) * og)
            u = lvl * np.exp(rng.normal(0, .2, O))
            x = fitted(true, p + (1,), S.ddims, og, None, None, u) * np.exp(rng.normal(0, noise, (O, D)))
            if rng.random() < .2:
                x[int(rng.integers(O)), int(rng.integers(1, D))] *= -.3
            a[k, c] = np.where(seen[k, c], np.round(x.cumsum(-1), 2), np.nan)
    t.values = a
    S = Snap(t)
    if (np.nan_to_num(a, nan=1.0) <= 0).any():
        raise Skip()
    sw = None
    if cc:
        sw = t.latest_diagonal
        sw.values = np.round(np.abs(lvl) * float(pick(rng, 1.5, 1.5, .001, 40)) * np.exp(rng.normal(0, .2, (K, C, O, 1))), 6)
        if C > 1 and rng.random() < .5:
            sw = sw.iloc[:, 0]
            ctx.event("shared exposure")
    by = None
    if K > 1 and rng.random() < .4:
        by = S.key_labels[int(rng.integers(len(S.key_labels)))]
        ctx.event("grouped")
    tail = rng.random() < .4
    be = pick(rng, "numpy", "numpy", "sparse")
    ctx.event("curve:" + curve); ctx.event("method:" + ("cape_cod" if cc else "ldf"))
    ctx.note(spec=brief(s), curve=curve, cc=cc, by=by, tail=tail, true=true, noise=noise, backend=be); ctx.sig = [brief(s), curve, cc, by, tail, noise, be]
    X = t.set_backend(be); W = None if sw is None else sw.set_backend(be)
    fit = lambda e: e.fit(X) if W is None else e.fit(X, sample_weight=W)
    if tail:
        return tailed(ctx, rng, t, X, W, S, og, curve, fit)
    est = cl.ClarkLDF(growth=curve, groupby=by)
    ctx.call("fit", fit, est)
    check(ctx, est, S, t, sw, og, curve, by)
    for o, what in ((est, "fitted"), (est.transform(X), "carried")):
        ages = np.array([0, og * .5, og * 3, og * 40.0])[int(rng.integers(2)):]
        g = dense(o.G_(ages.copy()).values)
        keep = ages.copy()
        o.G_(keep)
        ctx.check(np.array_equal(keep, ages), "growth-input", lambda: f"ages passed to the growth curve become {keep}")
        for (k, c), (om, th) in params(est).items():
            ctx.check(close(np.nan_to_num(g[k, c, 0]), G(curve, ages, om, th), 1e-9, 1e-12), "growth", lambda: f"{what} growth at {ages}: {g[k, c, 0]} for {G(curve, ages, om, th)}")


def params(est):
    om, th = est.omega_.to_numpy(float), est.theta_.to_numpy(float)
    return {(k, c): (om[k, c], th[k, c]) for k in range(om.shape[0]) for c in range(om.shape[1])}


def grouped(S, a, by):
    if by is None:
        return [tuple(map(str, k)) for k in S.kdims], a
    j = list(S.key_labels).index(by)
    g = [str(k[j]) for k in S.kdims]
    u = sorted(set(g))
    return [(x,) for x in u], np.array([a[[n for n, y in enumerate(g) if y == x]].sum(0) for x in u])


def check(ctx, est, S, t, sw, og, curve, by, ldf=True):
    seg, a = grouped(S, S.arr, by)
    O, D = a.shape[2:]
    e = None if sw is None else grouped(S, Snap(sw).arr[..., 0], by)[1]
    ages = S.ddims
    inc = np.diff(a, axis=-1, prepend=0)
    last = [min(S.vdate - o + 1, int(S.ddims[-1])) for o in S.odims]
    om, th = est.omega_, est.theta_
    rows = [tuple(map(str, r if isinstance(r, tuple) else (r,))) for r in om.index]
    if not ctx.check(rows == seg and list(om.columns) == S.vdims, "labels", lambda: f"parameters labelled {rows} {list(om.columns)} for {seg} {S.vdims}"):
        return
    ctx.check((sw is not None) == hasattr(est, "elr_"), "elr", lambda: f"an expected loss ratio {'missing' if sw is not None else 'without exposure'}")
    l = dense(est.ldf_.set_backend("numpy").values) if ldf else None
    f = Snap(est.incremental_fits_.set_backend("numpy"))
    sc = est.scale_
    off = OFFSET[og]
    for (k, c), p in params(est).items():
        par = p + ((float(est.elr_.iloc[k, c]),) if e is not None else ())
        ex = None if e is None else e[k, c if e.shape[1] > 1 else 0]
        latest = np.array([a[k, c, o, list(ages).index(last[o])] for o in range(O)])
        g = G(curve, np.array(ages, float) - off, *par[:2])
        if ldf:
            ctx.check(close(l[k, c, 0], g[1:] / g[:-1], 1e-9), "ldf", lambda: f"{seg[k]} factors {l[k, c, 0]} for growth {g}")
        arg = (inc[k, c], ages, og, latest, last, ex)
        base = loglik(curve, par, *arg)
        total = np.nansum(np.abs(inc[k, c]))
        best, at = base, par
        r = fmin(lambda x: -loglik(curve, np.exp(x), *arg), np.log(par), method="Nelder-Mead", options=dict(initial_simplex=np.log(par) + np.vstack([np.zeros(len(par)), .02 * np.eye(len(par))]), maxfev=250, xatol=1e-6, fatol=1e-9 * total))
        if -r.fun > best:
            best, at = -r.fun, np.exp(r.x)
        ctx.event("params", len(par)); ctx.event("likelihoods", int(r.nfev))
        ctx.note(gain=(best - base) / total)
        off_scale = at[1] > 1e3 * ages[-1] or par[1] > 1e3 * ages[-1]  # no maximum is attained: the curve degenerates
        if off_scale:
            ctx.event("degenerate")
        ctx.check(off_scale or best - base <= TOL * total, "likelihood", lambda: f"{seg[k]} {S.vdims[c]} {curve}: parameters {par} have log-likelihood {base}, {list(at)} nearby {best}, observed total {total}")
        want = fitted(curve, par, ages, og, latest, last, ex)
        want = np.where(np.isnan(a[k, c]), 0, want)
        for o in range(O):
            ctx.check(close(np.nan_to_num(f.arr[k, c, o]), want[o], 1e-8, 1e-9 * total), "fits", lambda: f"{seg[k]} origin {o}: fitted increments {f.arr[k, c, o]} for {want[o]}")
        if np.diff(np.concatenate([[0], g]))[np.array(ages) > off].min() < 1e-7:
            ctx.event("flat")
            continue  # expected increments of no significant digits
        n = (~np.isnan(a[k, c])).sum()
        dof = n - 2 - (O if ex is None else 1)
        w = np.nansum(np.where(want > 0, (inc[k, c] - want) ** 2 / np.where(want > 0, want, 1), 0)) / dof
        ctx.check(near(float(sc.iloc[k, c]), w, 1e-7), "scale", lambda: f"scale {sc.iloc[k, c]} for {w}")
        nr = Snap(est.norm_resid_.set_backend("numpy")).arr[k, c]
        with np.errstate(all="ignore"):
            wr = (inc[k, c] - want) / np.sqrt(w * want)
        ctx.check(close(np.nan_to_num(nr), np.nan_to_num(wr), 1e-6, 1e-7), "residual", lambda: f"residuals {nr} for {wr}")


TOL = 1e-6


def tailed(ctx, rng, t, X, W, S, og, curve, fit):
    ctx.event("tail")
    D = len(S.ddims)
    att = pick(rng, None, S.ddims[int(rng.integers(1, D))])
    trunc = pick(rng, None, None, float(S.ddims[-1] + og * int(rng.integers(5, 30))))
    ctx.note(att=att, trunc=trunc); ctx.sig += [att, trunc]
    dev = cl.Development(average=pick(rng, "volume", "simple")).fit_transform(X)
    est = cl.TailClark(growth=curve, attachment_age=att, truncation_age=trunc)
    before = dense(dev.ldf_.set_backend("numpy").values).copy()
    ctx.call("fit-tail", lambda: est.fit(dev) if W is None else est.fit(dev, sample_weight=W))
    sw = None if W is None else W.set_backend("numpy")
    check(ctx, est, S, t, sw, og, curve, None, ldf=False)
    off = OFFSET[og]
    at = att if att else S.ddims[-2]
    for tri, what in ((est.ldf_, "fitted"), (est.transform(dev).ldf_, "carried")):
        l = dense(tri.set_backend("numpy").values)
        ages = [int(str(x).split("-")[0]) for x in tri.development]
        for (k, c), (om, th) in params(est).items():
            for j, age in enumerate(ages):
                g = G(curve, age - off, om, th)
                if age < at:
                    w = before[k, c, 0, j]
                elif j + 1 < len(ages):
                    w = G(curve, ages[j + 1] - off, om, th) / g
                else:
                    w = (G(curve, trunc, om, th) if trunc else 1) / g
                ctx.check(near(l[k, c, 0, j], w, 1e-9), "tail-ldf", lambda: f"{what} factor at {age} (attached at {at}, truncated {trunc}): {l[k, c, 0, j]} for {w}")
        ctx.check(l.shape[2] == 1, "ldf", lambda: f"{l.shape}")
