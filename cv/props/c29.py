from cv.methods import *
from patsy import dmatrix, build_design_matrices
from sklearn.linear_model import LinearRegression, Ridge, TweedieRegressor
from sklearn.pipeline import Pipeline as SkPipe
from chainladder.utils.utility_functions import PatsyFormula
ID = "C29"
CASES = dict(quick=90, thorough=3500)
RULE = "random complete triangles (several segments, columns and grains) with regression-based developments: over-dispersed Poisson against closed-form chain ladder, linear, ridge, autoregressive and log-linear designs against an independent least squares on a table built from the cells, Tweedie designs (powers, links, penalties, weights) against their score equations; distinct by table and design"
REQUIRE = {"kind:odp": 10, "kind:linear": 20, "kind:tweedie": 10, "kind:bz": 8, "chk:prediction": 1200, "chk:ldf": 40, "chk:score": 20, "segments": 8, "weighted": 2, "recursive": 4}
BUDGET = {"quick": 240, "thorough": 840}
PER = {"Y": 1.0, "S": 2.0, "Q": 4.0, "M": 12.0}


def frame(t, observed=True):
    """one row per cell: segment, origin, age and date as the regression codes them"""
    s = Snap(t)
    vals = sorted({o + d - 1 for o in s.odims for d in s.ddims})
    rows = []
    for k, kd in enumerate(s.kdims):
        for o, od in enumerate(s.odims):
            for d, age in enumerate(s.ddims):
                seen = od + age - 1 <= s.vdate
                if observed and (not seen or np.isnan(s.arr[k, :, o, d]).all()):
                    continue
                rows.append(dict(k=k, o=o, d=d, seen=seen, origin=o / PER[s.og], development=int(age), valuation=vals.index(od + age - 1) / PER[s.dg], **{l: str(x) for l, x in zip(s.key_labels, kd)}))
    return s, pd.DataFrame(rows)


def amounts(s, f, cum):
    """response of each row and column: increments, or amounts"""
    a = np.nan_to_num(s.arr)
    if not s.cum and cum:
        a = a.cumsum(-1)
    if s.cum and not cum:
        a = np.diff(a, axis=-1, prepend=0)
    return np.array([a[r.k, :, r.o, r.d] for r in f.itertuples()])


def design(formula, f, g):
    info = dmatrix(formula, f).design_info
    return np.asarray(build_design_matrices([info], f)[0]), np.asarray(build_design_matrices([info], g)[0])


def formulas(rng, t, rich=True):
    out = ["C(development)", "C(development) + C(origin)", "development + origin", "development + I(development ** 2) + C(origin)", "C(development) + valuation", "0 + C(development):C(origin) + valuation"][: 5]
    f = pick(rng, *out)
    if len(t) > 1 and rng.random() < .7:
        f += " + C(" + t.key_labels[int(rng.integers(len(t.key_labels)))] + ")"
    return f


def case(ctx, i):
    rng = ctx.rng
    kind = ("linear", "odp", "linear", "tweedie", "bz", "linear", "recursion")[i % 7]
    og = int(pick(rng, 12, 12, 3, 6, 1)); dg = 3 if og == 12 and rng.random() < .2 else og
    multi = kind in ("linear", "tweedie", "recursion") and rng.random() < .5
    t, s = regular(rng, og=og, dg=dg, n_o=int(rng.integers(4, 8)), n_key=int(pick(rng, 2, 3)) if multi else 1, n_cols=int(pick(rng, 1, 2, 3)) if kind in ("linear", "tweedie", "recursion") else 1,
                   partial=False, late=False, max_cells=1500, cumulative=bool(rng.random() < .8))
    if t.shape[3] < 4 or any(not l.isidentifier() for l in t.key_labels):
        raise Skip()
    t = t.set_backend("numpy")
    if len(t) > 1:
        ctx.event("segments")
    # every segment's increments positive
    S = Snap(t)
    a = S.arr if not S.cum else np.diff(np.where(np.isnan(S.arr), np.nan, S.arr), axis=-1, prepend=0)
    if (a[~np.isnan(a)] <= 0).any():
        raise Skip()
    ctx.event("kind:" + kind)
    ctx.note(spec=brief(s), kind=kind); ctx.sig = [brief(s), kind]
    dict(odp=odp, linear=linear, tweedie=tweedie, bz=bz, recursion=recursion)[kind](ctx, rng, t)


def grid_check(ctx, tri, t, f_all, want, cols, cum, what):
    """the predicted triangle holds the predictions in the cells of their rows"""
    m = Snap(tri.set_backend("numpy"))
    s = Snap(t)
    if not ctx.check(m.odims == s.odims and m.ddims == s.ddims and m.vdims == cols and m.cum == cum and [list(map(str, x)) for x in m.kdims] == [list(map(str, x)) for x in s.kdims], "labels", lambda: f"{what}: {m.meta()} for {s.meta()}"):
        return
    sc = np.abs(want).max()
    for n, r in enumerate(f_all.itertuples()):
        for c in range(len(cols)):
            ctx.check(near(np.nan_to_num(m.arr[r.k, c, r.o, r.d]), want[n, c], 1e-6, 1e-7 * sc), "prediction", lambda: f"{what} {cols[c]} segment {s.kdims[r.k]} origin {r.o} age {s.ddims[r.d]}: {m.arr[r.k, c, r.o, r.d]}, regression {want[n, c]}")


def ldf_check(ctx, est, t, f_all, want, cum, what):
    s = Snap(t)
    C = want.shape[1]
    full = np.full((len(s.kdims), C, len(s.odims), len(s.ddims)), np.nan)
    for n, r in enumerate(f_all.itertuples()):
        full[r.k, :, r.o, r.d] = want[n]
    if not cum:
        full = full.cumsum(-1)
    if (np.abs(full) < 1e-3 * np.abs(full).max()).any():
        return
    l = full[..., 1:] / full[..., :-1]
    for x, where in ((est.ldf_, "fitted"), (est.transform(t).ldf_, "carried")):
        g = dense(x.set_backend("numpy").values)
        ctx.check(g.shape == l.shape and close(np.nan_to_num(g), l, 1e-5, 1e-7), "ldf", lambda: f"{what}: {where} factors {g.shape} {g[0, 0]} are not those of the predictions {l[0, 0]}")


def odp(ctx, rng, t):
    g = cl.TweedieGLM(power=1, alpha=0, max_iter=5000, tol=1e-9)
    ctx.call("fit", g.fit, t)
    u = Snap(cl.Chainladder().fit(g.transform(t)).ultimate_.set_backend("numpy")).arr[0, 0, :, 0]
    s = Snap(t); a = np.nan_to_num(s.arr[0, 0]); a = a if s.cum else a.cumsum(-1)
    la = [max(d for d in range(len(s.ddims)) if s.odims[o] + s.ddims[d] - 1 <= s.vdate) for o in range(len(s.odims))]
    f = [sum(a[o, d + 1] for o in range(len(la)) if la[o] > d) / sum(a[o, d] for o in range(len(la)) if la[o] > d) for d in range(len(s.ddims) - 1)]
    for o in range(len(la)):
        w = a[o, la[o]] * np.prod(f[la[o]:])
        ctx.check(near(u[o], w, 2e-4), "odp", lambda: f"origin {o}: {u[o]} from the Poisson regression, {w} from volume-weighted factors")
    sums = Snap(g.triangle_ml_.set_backend("numpy")).arr[0, 0]
    inc = np.diff(a, axis=-1, prepend=0)
    for o in range(len(la)):
        ctx.check(near(sums[o, :la[o] + 1].sum(), inc[o, :la[o] + 1].sum(), 2e-4), "margin", lambda: f"origin {o}: fitted increments add to {sums[o, :la[o] + 1].sum()}, observed {inc[o, :la[o] + 1].sum()}")
    rows = [(d, [o for o in range(len(la)) if la[o] >= d]) for d in range(len(s.ddims))]
    for d, os_ in rows:
        ctx.check(near(sums[os_, d].sum(), inc[os_, d].sum(), 2e-4, 1e-4 * inc.max()), "margin", lambda: f"age {s.ddims[d]}: fitted increments add to {sums[os_, d].sum()}, observed {inc[os_, d].sum()}")


def linear(ctx, rng, t):
    fm = formulas(rng, t)
    cum = t.is_cumulative and rng.random() < .3
    cols = list(t.columns)
    y = pick(rng, None, None, cols[int(rng.integers(len(cols)))], cols[: int(rng.integers(1, len(cols) + 1))])
    use = cols if y is None else [y] if isinstance(y, str) else y
    alpha = float(pick(rng, 0, 0, 2.5))
    wt = None
    if alpha == 0 and len(cols) > 1 and len(use) == 1 and rng.random() < .6:
        wt = [c for c in cols if c not in use][0]
        ctx.event("weighted")
    model = Ridge(alpha=alpha, fit_intercept=False) if alpha else LinearRegression(fit_intercept=False)
    est = cl.DevelopmentML(SkPipe([("design", PatsyFormula(fm)), ("m", model)]), y_ml=y, fit_incrementals=not cum, weight_ml=wt)
    ctx.note(formula=fm, y=str(y), cum=cum, alpha=alpha, wt=wt); ctx.sig += [fm, str(y), cum, alpha, wt]
    s, f = frame(t)
    _, g = frame(t, False)
    X, G = design(fm, f, g)
    Y = amounts(s, f, cum)[:, [cols.index(c) for c in use]]
    if wt:
        w = np.array([np.nan_to_num(s.arr[r.k, cols.index(wt), r.o, r.d]) for r in f.itertuples()])
        q = np.sqrt(w)[:, None]
        B = np.linalg.lstsq(X * q, Y * q, rcond=None)[0]
    else:
        B = np.linalg.lstsq(X, Y, rcond=None)[0] if not alpha else np.linalg.solve(X.T @ X + alpha * np.eye(X.shape[1]), X.T @ Y)
    if np.linalg.matrix_rank(X) < X.shape[1] and not alpha:
        raise Skip()
    want = G @ B
    ctx.call("fit", est.fit, t)
    grid_check(ctx, est.triangle_ml_, t, g, want, use, cum, fm)
    ldf_check(ctx, est, t, g, want, cum, fm)


def recursion(ctx, rng, t):
    """lagged responses as features: observed ones to fit, earlier predictions to project"""
    cum = t.is_cumulative and rng.random() < .5
    cols = list(t.columns)
    y = pick(rng, None, None, cols[int(rng.integers(len(cols)))], list(np.array(cols)[rng.permutation(len(cols))]))
    use = cols if y is None else [y] if isinstance(y, str) else [str(c) for c in y]
    y = y if y is None or isinstance(y, str) else use
    n = t.shape[3]
    lags = [(f"lag{q}", -int(pick(rng, 1, 1, 2, 3)), use[int(rng.integers(len(use)))]) for q in range(int(pick(rng, 1, 1, 2)))]
    fm = " + ".join(x[0] for x in lags) + pick(rng, "", " + development", " + C(origin)", " + origin")
    est = cl.DevelopmentML(SkPipe([("design", PatsyFormula(fm)), ("m", LinearRegression(fit_intercept=False))]), y_ml=y, fit_incrementals=not cum, autoregressive=lags)
    ctx.note(formula=fm, y=str(y), cum=cum, lags=lags); ctx.sig += [fm, str(y), cum, lags]
    s, f = frame(t)
    _, g = frame(t, False)
    A = amounts(s, f, cum)
    Y = A[:, [cols.index(c) for c in use]]
    seen = {(r.k, r.o, r.d): A[n] for n, r in enumerate(f.itertuples())}
    for name, lag, src in lags:
        f[name] = [seen.get((r.k, r.o, r.d + lag), np.zeros(len(cols)))[cols.index(src)] for r in f.itertuples()]
    info = dmatrix(fm, f).design_info
    X = np.asarray(build_design_matrices([info], f)[0])
    if np.linalg.matrix_rank(X / np.abs(X).max(0)) < X.shape[1]:
        raise Skip()
    B = np.linalg.lstsq(X, Y, rcond=None)[0]
    pred = {(r.k, r.o, r.d): v for r, v in zip(f.itertuples(), X @ B)}
    for d in range(n):
        h = g[(g.d == d) & ~g.seen].copy()
        if not len(h):
            continue
        for name, lag, src in lags:
            h[name] = [pred.get((r.k, r.o, r.d + lag), np.zeros(len(use)))[use.index(src)] for r in h.itertuples()]
        pred.update({(r.k, r.o, r.d): v for r, v in zip(h.itertuples(), np.asarray(build_design_matrices([info], h)[0]) @ B)})
    want = np.array([pred[r.k, r.o, r.d] for r in g.itertuples()])
    if not np.isfinite(want).all() or np.abs(want).max() > 1e3 * np.abs(Y).max() or (np.abs(want) < 1e-6 * np.abs(want).max()).any():
        raise Skip()
    ctx.event("recursive")
    ctx.call("fit", est.fit, t)
    grid_check(ctx, est.triangle_ml_, t, g, want, use, cum, fm)
    ldf_check(ctx, est, t, g, want, cum, fm)


def bz(ctx, rng, t):
    fm = pick(rng, "C(development)", "C(development) + origin", "development + C(origin)", "origin + development", "C(origin) + development + valuation"[:23])
    s, f = frame(t)
    _, g = frame(t, False)
    X, G = design(fm, f, g)
    Y = np.log(amounts(s, f, False))
    if np.linalg.matrix_rank(X) < X.shape[1] or (np.abs(Y) < 1e-9).any() or len(X) <= X.shape[1]:
        raise Skip()
    B = np.linalg.lstsq(X, Y, rcond=None)[0]
    est = cl.BarnettZehnwirth(formula=fm)
    ctx.note(formula=fm); ctx.sig.append(fm)
    ctx.call("fit", est.fit, t)
    want = np.exp(G @ B)
    grid_check(ctx, est.triangle_ml_, t, g, want, list(t.columns), False, fm)
    ldf_check(ctx, est, t, g, want, False, fm)
    co = est.coef_
    ctx.check(close(np.sort(co.iloc[:, 0].to_numpy(float)), np.sort(B[:, 0]), 1e-6, 1e-8), "coef", lambda: f"coefficients {co.T} and {B[:, 0]}")
    r = Y[:, 0] - (X @ B)[:, 0]
    mse = (r ** 2).sum() / (len(r) - X.shape[1])
    ctx.check(near(float(est.mse_resid_), mse, 1e-6), "mse", lambda: f"residual variance {est.mse_resid_}, {mse}")
    sr = Snap(est.std_residuals_)
    for n, q in enumerate(f.itertuples()):
        ctx.check(near(np.nan_to_num(sr.arr[0, 0, q.o, q.d]), r[n] / np.sqrt(mse), 1e-5, 1e-6), "resid", lambda: f"standard residual of origin {q.o} age {q.development}: {sr.arr[0, 0, q.o, q.d]} and {r[n] / np.sqrt(mse)}")


def tweedie(ctx, rng, t):
    fm = formulas(rng, t).replace("development + I(development ** 2)", "C(development)")
    p = float(pick(rng, 1, 1, 1.5, 2)); link = pick(rng, "log", "log", "log") ; alpha = float(pick(rng, 0, .05, 1.0))
    cols = list(t.columns)
    y = pick(rng, None, cols[int(rng.integers(len(cols)))]); use = y or cols[0]
    wt = None
    if len(cols) > 1 and rng.random() < .4:
        wt = [c for c in cols if c != use][0]
        ctx.event("weighted")
    scale = 1.0 if p == 1 else 1.0
    est = cl.TweedieGLM(design_matrix=fm, response=y, weight=wt, power=p, alpha=alpha, link=link, max_iter=5000, tol=1e-7)
    ctx.note(formula=fm, p=p, alpha=alpha, y=y, wt=wt); ctx.sig += [fm, p, alpha, y, wt]
    s, f = frame(t)
    _, g = frame(t, False)
    try:
        X, G = design(fm, f, g)
    except Exception:
        raise Skip()
    if np.linalg.matrix_rank(X) < X.shape[1]:
        raise Skip()
    Y = amounts(s, f, False)[:, cols.index(use)]
    w = np.ones(len(Y)) if wt is None else np.array([np.nan_to_num(s.arr[r.k, cols.index(wt), r.o, r.d]) for r in f.itertuples()])
    w = w / w.sum()
    ref = TweedieRegressor(link="log", power=p, alpha=alpha, max_iter=5000, tol=1e-7, fit_intercept=False).fit(X, Y, w)
    grad, size = score(X, Y, w, ref.coef_, p, alpha)
    if (np.abs(grad) > 1e-3 * size + 1e-7).any():
        raise Skip()        # the optimiser itself gives up on this table
    ctx.call("fit", est.fit, t)
    b = est.coef_.iloc[:, 0].to_numpy(float)
    names = list(dmatrix(fm, f).design_info.column_name_indexes)
    ctx.check(list(est.coef_.index) == names, "labels", lambda: f"coefficients of {list(est.coef_.index)}, design {names}")
    ctx.check(close(np.exp(X @ b), np.exp(X @ ref.coef_), 2e-2, 0), "coef", lambda: f"coefficients {dict(zip(names, b))}, the regression on the cells has {ref.coef_}")
    want = np.exp(G @ b)[:, None]
    grid_check(ctx, est.triangle_ml_, t, g, want, [use], False, fm)
    if len(cols) == 1:
        ldf_check(ctx, est, t, g, want, False, fm)
    # the score equations of the fitted coefficients, relative to the size of their terms
    grad, size = score(X, Y, w, b, p, alpha)
    for n in range(len(b)):
        ctx.check(abs(grad[n]) <= 1e-2 * size[n] + 1e-6, "score", lambda: f"coefficient {names[n]} of {fm}: score {grad[n]} of terms of size {size[n]} (power {p}, penalty {alpha}, weight {wt})")


def score(X, Y, w, b, p, alpha):
    mu = np.exp(X @ b)
    terms = X * (w * (mu - Y) * mu ** (1 - p))[:, None]
    return terms.sum(0) + alpha * b, np.abs(terms).sum(0) + alpha * np.abs(b)
