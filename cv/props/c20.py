from cv.methods import *
ID = "C20"
CASES = dict(quick=230, thorough=7000)
RULE = "every development, tail, adjustment and reserving estimator fitted on tables of several segments (rows and columns, segments of very different size and history, missing rows), then on each segment alone and on the segments in another order; every fitted result and prediction compared segment by segment; distinct by estimator, settings and table"
REQUIRE = {"chk:alone": 800, "chk:order": 200, "segments": 200, "uneven": 30}
SKIP = {"BootstrapODPSample", "TweedieGLM", "BarnettZehnwirth", "DevelopmentML"}
NAMES = [n for n in ZOO if n not in SKIP]
LOOSE = {"ClarkLDF": 2e-3, "TailClark": 2e-3, "TailBondy": 1e-3}
ATTRS = [a for a in RESULTS if a not in ("total_mack_std_err_", "design_matrix_", "coef_", "w_v2_", "tail_", "summary_")] + ["summary_"]


def view(v, k, c, keys, cols):
    """the part of a result that belongs to one segment"""
    if isinstance(v, cl.Triangle):
        s = Snap(v)
        a = s.arr
        if len(s.kdims) > 1 or len(keys) == 1:
            a = a[[s.kdims.index(k)]] if k in s.kdims else a
        if len(s.vdims) > 1 or len(cols) == 1:
            a = a[:, [s.vdims.index(c)]] if c in s.vdims else a
        return ("tri", [len(s.kdims) > 1 and k not in s.kdims, s.odims, s.ddims, s.pattern or s.vdate, s.og, s.dg], a)
    if isinstance(v, np.ndarray) and v.ndim == 4:
        a = v
        if a.shape[0] == len(keys):
            a = a[[keys.index(k)]]
        if a.shape[1] == len(cols):
            a = a[:, [cols.index(c)]]
        return ("arr", [], a)
    if isinstance(v, pd.DataFrame) and v.shape == (len(keys), len(cols)):
        return ("df", [], np.array([[v.iloc[keys.index(k), cols.index(c)]]], float))
    return None


def parts(est, k, c, keys, cols):
    out = {}
    for a in ATTRS:
        try:
            v = getattr(est, a)
        except Exception:
            continue
        r = view(v, k, c, keys, cols)
        if r is not None:
            out[a] = r
    return out


def agree(ctx, key, name, a, b, msg, tol):
    for n in sorted(set(a) & set(b)):
        x, y = a[n], b[n]
        if not ctx.check(x[1] == y[1], key, lambda: f"{msg} {n}: labels {str(x[1])[:150]} and {str(y[1])[:150]}"):
            continue
        p, q = np.nan_to_num(x[2], posinf=1e300, neginf=-1e300), np.nan_to_num(y[2], posinf=1e300, neginf=-1e300)
        sc = np.abs(p[np.abs(p) < 1e200]).max(initial=0.0)
        ctx.event("results_compared")
        ctx.check(close(p, q, tol, tol * sc + 1e-12), f"{key}:{n}", lambda: f"{msg} {n}: " + first_diff(p, q, tol, tol * sc))


def uneven(rng, t, sw):
    """one segment with another history: origins or ages it does not have"""
    a = t.set_backend("numpy").copy()
    k, c = int(rng.integers(len(a))), int(rng.integers(a.shape[1]))
    r = pick(rng, "first", "first2", "scale", "scale")
    if r == "first":
        a.values[k, :, 0] = np.nan
    elif r == "first2":
        a.values[k, :, :2] = np.nan
    else:
        a.values[k, c] = np.round(a.values[k, c] * 1e-3, 6) if rng.random() < .5 else a.values[k, c] * 1e4
    return a, r


def case(ctx, i):
    rng = ctx.rng
    name = NAMES[i % len(NAMES)] if rng.random() < .7 else pick(rng, "Development", "MackChainladder", "CapeCod", "MunichAdjustment", "IncrementalAdditive", "CaseOutstanding", "Benktander")
    kw = dict(n_key=int(rng.integers(2, 4)))
    if rng.random() < .25 and ZOO[name].get("data") is None:
        kw = dict(n_key=1, n_cols=2)
    if rng.random() < .5 and kw["n_key"] > 1:
        kw["n_levels"] = int(pick(rng, 1, 2, 3))
    est, X, sw, s = build(rng, name, **kw)
    how = "even"
    if rng.random() < .35 and ZOO[name].get("data") is None and len(X) * X.shape[1] > 1 and name not in LOOSE:
        X, how = uneven(rng, X, sw); ctx.event("uneven")
    if rng.random() < .25 and ZOO[name].get("data") is None:
        X = X.set_backend("sparse")
    pre = None
    if ZOO[name]["kind"] in ("tail", "method") and rng.random() < .6:
        pre = development(rng)
    prep = (lambda x: x) if pre is None else (lambda x: pre.fit_transform(x))
    ctx.note(spec=brief(s), est=str(est), pre=str(pre), uneven=how, backend=X.array_backend); ctx.sig = [brief(s), str(est), str(pre), how]
    keys, cols = Snap(X).kdims, list(X.columns)
    tol = LOOSE.get(name, 1e-8 if how == "even" else 1e-7)
    try:
        both = fit(copy_of(est), prep(X), sw)
    except Exception as e:
        ctx.event("rejected")
        raise Skip()
    # order
    o = [int(x) for x in rng.permutation(len(keys))]
    oc = [str(x) for x in rng.permutation(cols)] if ZOO[name].get("data") is None else cols
    if len(keys) > 1 or len(cols) > 1:
        Y = X.iloc[o][oc] if len(keys) > 1 else X[oc]
        w = None if sw is None else (sw.iloc[o][oc] if len(keys) > 1 else sw[oc])
        other = ctx.call("refit", fit, copy_of(est), prep(Y), w)
        k2, c2 = Snap(Y).kdims, list(Y.columns)
        for k in keys:
            for c in cols:
                agree(ctx, "order", name, parts(both, k, c, keys, cols), parts(other, k, c, k2, c2), f"{name} {k} {c}, segments in another order:", tol)
    single = ZOO[name].get("data") is not None
    for n, k in enumerate(keys):
        for c in (cols if not single else [None]):
            Y = X.iloc[[n]] if len(keys) > 1 else X
            w = None if sw is None else (sw.iloc[[n]] if len(keys) > 1 else sw)
            if c is not None:
                Y, w = Y[[c]], (None if w is None else w[[c]])
            one = ctx.call("alone", fit, copy_of(est), prep(Y), w)
            ctx.event("segments")
            for cc in (cols if c is None else [c]):
                cs = cols if c is None else [c]
                agree(ctx, "alone", name, parts(both, k, cc, keys, cols), parts(one, k, cc, [k], cs), f"{name} {k} {cc}, alone:", tol)
            if hasattr(both, "predict") and rng.random() < .3:
                pb = both.predict(prep(X) if pre is None else X, **({} if sw is None else dict(sample_weight=sw)))
                po = one.predict(prep(Y) if pre is None else Y, **({} if w is None else dict(sample_weight=w)))
                for cc in (cols if c is None else [c]):
                    agree(ctx, "predict", name, parts(pb, k, cc, keys, cols), parts(po, k, cc, [k], cols if c is None else [c]), f"{name} prediction {k} {cc}, alone:", tol)
                ctx.event("predictions")


def copy_of(est):
    from sklearn.base import clone
    return clone(est)
