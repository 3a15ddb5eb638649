from cv.methods import *
ID = "C30"
CASES = dict(quick=160, thorough=6000)
RULE = "random complete triangles (several segments, columns, grains, square, wide and short) fitted by the incremental additive method (trends, averages, period counts, every exclusion and exposure) and by the case outstanding method (period counts, groupings, backends); every ratio, selected factor, completed cell and ultimate recomputed cell by cell; distinct by table and settings"
REQUIRE = {"kind:ia": 40, "kind:co": 30, "chk:zeta": 200, "chk:future": 800, "chk:known": 800, "excluded": 10, "chk:ratio": 300, "chk:co-ldf": 100, "grouped": 5, "preserved": 3}
BUDGET = {"quick": 240, "thorough": 840}
OFF = {("Y", "Y"): 1, ("Y", "S"): 2, ("Y", "Q"): 4, ("Y", "M"): 12, ("S", "S"): 1, ("S", "Q"): 2, ("S", "M"): 6, ("Q", "Q"): 1, ("Q", "M"): 3, ("M", "M"): 1}


def case(ctx, i):
    rng = ctx.rng
    kind = "ia" if i % 9 < 5 else "co"
    kw = mixed_grain(rng, partial=False)
    if kw["dg"] == 1 and kw["og"] >= 6:
        kw.update(n_key=1, n_o=4)
    kw["n_cols"] = int(pick(rng, 1, 1, 2)) if kind == "ia" else int(pick(rng, 2, 2, 3))
    t, s = regular(rng, late=False, cumulative=True, max_cells=3000, **kw)
    t = t.set_backend("numpy")
    if t.shape[3] < 3 or t.shape[2] < 3:
        raise Skip()
    shape = pick(rng, "square", "square", "short") if kw["og"] == kw["dg"] else "square"
    if shape == "short":
        t = t.iloc[..., : max(3, t.shape[3] - int(rng.integers(1, 3)))]
    ctx.event("kind:" + kind)
    ctx.note(spec=brief(s), kind=kind, shape=shape); ctx.sig = [brief(s), kind, shape]
    dict(ia=ia, co=co)[kind](ctx, rng, t)


def per_age(rng, n, hi, lo=0):
    return int(rng.integers(lo, hi)) if rng.random() < .7 else [int(rng.integers(lo, hi)) for _ in range(int(rng.integers(1, n + 1)))]


def spread(p, n, default):
    return ([default if x is None else x for x in p] + [default] * (n - len(p))) if isinstance(p, list) else [default if p is None else p] * n


def selected(ctx, s, x, y, st):
    """cells kept by the settings: 1 kept, 0 left out"""
    K, C, O, D = x.shape
    val = np.array([[o + d - 1 for d in s.ddims] for o in s.odims])
    seen = ~np.isnan(x)
    vals = sorted({v for v in val.ravel() if v <= s.vdate})
    w = seen.copy()
    for d, n in enumerate(spread(st["n_periods"], D, -1)):
        if 1 <= n < O:
            w[..., d] &= val[:, d] >= vals[-n * OFF[s.og, s.dg]]
    for lab, age in st["drop"] or []:
        w[:, :, st["origins"].index(lab), list(s.ddims).index(age)] = False
    for v in st["drop_valuation"] or []:
        w &= val != v
    out = w.copy()
    ab, be = st["drop_above"], st["drop_below"]
    hi, lo, keep = spread(st["drop_high"], D, 0), spread(st["drop_low"], D, 0), st["preserve"]
    for k in range(K):
        for c in range(C):
            for d in range(D):
                col = x[k, c, :, d]
                if ab != np.inf or be != -np.inf:
                    ok = (col < ab) & (col > be)
                    if ok.sum() >= keep:
                        if not ok[seen[k, c, :, d]].all():
                            ctx.event("excluded")
                        out[k, c, :, d] &= ok
                    else:
                        ctx.event("preserved")
                idx = [o for o in range(O) if out[k, c, o, d]]
                if (hi[d] or lo[d]):
                    if len(idx) - hi[d] - lo[d] < keep:
                        ctx.event("preserved")
                        continue
                    ctx.event("excluded")
                    idx.sort(key=lambda o: (col[o], y[k, c, o, d]))
                    for o in idx[: lo[d]] + idx[len(idx) - hi[d]:]:
                        out[k, c, o, d] = False
    return out.astype(float)


def ia(ctx, rng, t):
    s = Snap(t)
    O, D = len(s.odims), len(s.ddims)
    y = np.diff(s.arr, axis=-1, prepend=0)
    if (y[~np.isnan(y)] == 0).any():
        raise Skip()
    sw = t.iloc[..., 0]
    sw.values = np.round(np.nanmean(np.abs(s.arr)) * 1.6 * np.exp(rng.normal(0, .3, sw.shape)), 2) + 1
    one_col = len(s.vdims) > 1 and rng.random() < .2
    if one_col:
        sw = sw.iloc[:, 0]
    e = Snap(sw).arr[:, :, :, 0]
    st = dict(trend=float(pick(rng, 0, 0, .05, -.03)), future_trend=float(pick(rng, 0, 0, .08)), average=pick(rng, "volume", "simple", "regression"),
              n_periods=per_age(rng, D, O + 1, 2) if rng.random() < .4 else -1, drop=None, drop_valuation=None, drop_high=None, drop_low=None, drop_above=np.inf, drop_below=-np.inf, preserve=int(pick(rng, 1, 1, 2)))
    val = np.array([[o + d - 1 for d in s.ddims] for o in s.odims])
    y_t = y * ((1 + st["trend"]) ** ((s.vdate - val) / 12))
    x = y_t / e[:, :, :, None]
    origins = [str(o) for o in t.origin]
    r = rng.random()
    if r < .2:
        cells = [(o, d) for o in range(O) for d in range(D - 1) if val[o, d] <= s.vdate and (val[:, d] <= s.vdate).sum() > 2]
        if cells:
            pk = [cells[int(rng.integers(len(cells)))] for _ in range(int(rng.integers(1, 3)))]
            if len({d for _, d in pk}) == len(pk):
                st["drop"] = [(origins[o], s.ddims[d]) for o, d in pk]
                ctx.event("excluded")
    elif r < .35:
        # a diagonal other than the only one of a column
        vs = sorted({v for v in val.ravel() if v <= s.vdate})
        v = vs[int(rng.integers(len(vs)))]
        if all(((val[:, d] <= s.vdate) & (val[:, d] != v)).any() for d in range(D)):
            st["drop_valuation"] = [v]
            ctx.event("excluded")
    elif r < .6:
        if rng.random() < .7:
            st["drop_high"] = per_age(rng, D, 3)
        if rng.random() < .7:
            st["drop_low"] = per_age(rng, D, 3)
    elif r < .75:
        q = np.sort(x[~np.isnan(x)].ravel())
        if rng.random() < .6:
            st["drop_above"] = float(q[int(len(q) * .8)]) * 1.0001
        if rng.random() < .6:
            st["drop_below"] = float(q[int(len(q) * .15)]) * 1.0001
    args = dict(st)
    if st["drop_valuation"]:
        args["drop_valuation"] = [str(mend(v).date()) for v in st["drop_valuation"]]
    if st["drop"]:
        args["drop"] = [(o, pick(rng, str, str)(a)) for o, a in st["drop"]]
        if len(args["drop"]) == 1 and rng.random() < .5:
            args["drop"] = args["drop"][0]
    if isinstance(st["drop"], list) or rng.random() < .3:
        pass
    st["origins"] = origins
    w = selected(ctx, s, x, y_t, st)
    if (w.sum(2) == 0).any():
        raise Skip()
    be = pick(rng, "numpy", "numpy", "sparse")
    ctx.note(settings=args, backend=be, one_col=one_col); ctx.sig += [str(args), be, one_col]
    est = cl.IncrementalAdditive(**args)
    X, W = t.set_backend(be), sw.set_backend(be)
    if rng.random() < .3 and not one_col:
        X = X.cum_to_incr() if rng.random() < .5 else X
    ctx.call("fit", est.fit, X, sample_weight=W)
    avg = st["average"]
    z = np.zeros(w.shape[:2] + (D,))
    eb = np.broadcast_to(e[:, :, :, None], y.shape)
    yn, xn = np.nan_to_num(y_t), np.nan_to_num(x)
    z = (w * yn).sum(2) / (w * eb).sum(2) if avg == "volume" else (w * xn).sum(2) / w.sum(2) if avg == "simple" else (w * yn * eb).sum(2) / (w * eb * eb).sum(2)
    got = Snap(est.zeta_.set_backend("numpy")).arr
    if ctx.check(got.shape == z.shape[:2] + (1, D), "zeta-shape", lambda: f"{got.shape} for {z.shape}"):
        sc = np.abs(z).max()
        for k in range(len(z)):
            for c in range(z.shape[1]):
                for d in range(D):
                    ctx.check(near(np.nan_to_num(got[k, c, 0, d]), z[k, c, d], 1e-8, 1e-10 * sc), "zeta", lambda: f"segment {s.kdims[k]} column {s.vdims[c]} age {s.ddims[d]}: selected ratio {got[k, c, 0, d]}, average of the kept ratios {z[k, c, d]}, kept {w[k, c, :, d]}")
    gw = np.nan_to_num(dense(est.w_))
    ctx.check(gw.shape == w.shape and np.array_equal(gw, w), "weights", lambda: f"kept cells {gw[0, 0]} for {w[0, 0]}")
    ft = st["future_trend"] or st["trend"]
    m = Snap(est.incremental_.set_backend("numpy"))
    if not ctx.check(m.odims == s.odims and m.ddims == s.ddims and m.vdims == s.vdims and not m.cum and list(map(str, m.kdims)) == list(map(str, s.kdims)), "labels", lambda: f"{m.meta()}"):
        return
    full = np.where(val[None, None] <= s.vdate, np.nan_to_num(y), z[:, :, None, :] * eb * (1 + ft) ** ((val - s.vdate) / 12))
    sc = np.abs(full).max()
    for idx in np.ndindex(full.shape):
        k, c, o, d = idx
        known = val[o, d] <= s.vdate
        ctx.check(near(np.nan_to_num(m.arr[idx]), full[idx], 1e-8, 1e-9 * sc), "known" if known else "future", lambda: f"{'observed' if known else 'future'} increment of segment {s.kdims[k]} {s.vdims[c]} origin {origins[o]} age {s.ddims[d]}: {m.arr[idx]} for {full[idx]}")
    # factors: the developed history of ratios to exposure, before future trend
    flat = np.where(val[None, None] <= s.vdate, np.nan_to_num(y), z[:, :, None, :] * eb).cumsum(-1)
    if (np.abs(flat) > 1e-3 * np.abs(flat).max()).all():
        l = flat[..., 1:] / flat[..., :-1]
        for tri, what in ((est.ldf_, "fitted"), (est.transform(t).ldf_, "carried")):
            g = dense(tri.set_backend("numpy").values)
            ctx.check(g.shape == l.shape and close(np.nan_to_num(g), l, 1e-7, 1e-9), "ia-ldf", lambda: f"{what} factors {g.shape} {g[0, 0]} for {l[0, 0]}")


def co(ctx, rng, t):
    s0 = Snap(t)
    K, C, O, D = s0.arr.shape
    pi = [int(x) for x in rng.permutation(C)[:2]]
    names = [s0.vdims[j] for j in pi]
    a = s0.arr.copy()
    dec = np.exp(-np.arange(D) / D * 2)[None, None] * np.exp(rng.normal(0, .25, (K, O, D)))
    a[:, pi[1]] = np.round(a[:, pi[0]] + np.abs(np.nanmean(a[:, pi[0]])) * .4 * dec + .5, 2)
    t = t.copy(); t.values = a
    s = Snap(t)
    pd_, inc = s.arr[:, pi[0]], s.arr[:, pi[1]]
    dp = np.diff(pd_, axis=-1, prepend=0)
    cs = inc - pd_
    if (dp[~np.isnan(dp)] <= 0).any() or (cs[~np.isnan(cs)] <= 0).any():
        raise Skip()
    np_, nc = (int(pick(rng, -1, -1, 2, 3)) for _ in range(2))
    by = None
    labels = list(s.key_labels)
    if K > 1 and rng.random() < .6:
        by = labels[int(rng.integers(len(labels)))]
        ctx.event("grouped")
    seg = [tuple(str(x) for x in kd) for kd in s.kdims]
    grp = [sg[labels.index(by)] if by else sg for sg in seg]
    groups = sorted(set(grp)) if by else seg
    be = pick(rng, "numpy", "numpy", "sparse")
    settings = dict(paid_to_incurred=tuple(names), paid_n_periods=np_, case_n_periods=nc, groupby=by)
    ctx.note(settings=settings, backend=be); ctx.sig += [str(settings), be]
    est = cl.CaseOutstanding(**settings)
    X = t.set_backend(be)
    ctx.call("fit", est.fit, X)
    val = np.array([[o + d - 1 for d in s.ddims] for o in s.odims])
    vals = sorted({v for v in val.ravel() if v <= s.vdate})

    def kept(n):
        ok = val[:, 1:] <= s.vdate
        if 1 <= n < O - 1:
            ok = ok & (val[:, 1:] > vals[-n * OFF[s.og, s.dg] - 1])
        return ok
    G = len(groups)
    sums = lambda z: np.array([z[[j for j in range(K) if grp[j] == g]].sum(0) for g in groups]) if by else z
    gdp, gcs = sums(dp), sums(cs)
    out = {}
    for nm, num, n in (("paid", gdp[..., 1:], np_), ("case", gcs[..., 1:], nc)):
        rat = num / gcs[..., :-1]
        ok = kept(n)
        rr = np.where(ok[None], rat, np.nan)
        tri = getattr(est, f"{nm}_to_prior_case_").set_backend("numpy")
        g = dense(tri.values)[:, 0]
        for k in range(G):
            for o in range(O):
                for d in range(D - 1):
                    ctx.check(near(np.nan_to_num(g[k, o, d]), np.nan_to_num(rr[k, o, d]), 1e-9), "ratio", lambda: f"{nm} to prior case of {groups[k]} origin {o} age {s.ddims[d + 1]}: {g[k, o, d]} for {rr[k, o, d]}")
        f = np.array([[np.nanmean(rr[k, :, d]) if ok[:, d].any() else np.nan for d in range(D - 1)] for k in range(G)])
        sel = dense(getattr(est, f"{nm}_ldf_").set_backend("numpy").values)
        ctx.check(sel.shape == (G, 1, 1, D - 1) and close(np.nan_to_num(sel[:, 0, 0]), np.nan_to_num(f), 1e-9), "selected", lambda: f"selected {nm} ratios {sel[:, 0, 0]} for {f}")
        out[nm] = f
    full = {}
    P, I = np.nan_to_num(pd_).copy(), np.nan_to_num(inc).copy()
    for k in range(K):
        g = groups.index(grp[k])
        for o in range(O):
            c = None
            for d in range(D):
                if val[o, d] <= s.vdate:
                    c = cs[k, o, d]
                else:
                    P[k, o, d] = P[k, o, d - 1] + c * out["paid"][g, d - 1]
                    c = c * out["case"][g, d - 1]
                    I[k, o, d] = P[k, o, d] + c
    order = sorted(pi)
    u = ctx.call("transform", est.transform, X)
    for tri, what in ((est.ldf_, "fitted"), (u.ldf_, "carried")):
        g = Snap(tri.set_backend("numpy"))
        if not ctx.check(g.vdims == [s.vdims[j] for j in order] and g.arr.shape == (K, 2, O, D - 1), "co-shape", lambda: f"{what} factors {g.vdims} {g.arr.shape}"):
            return
        for c, j in enumerate(order):
            M = P if j == pi[0] else I
            for k in range(K):
                for o in range(O):
                    l = M[k, o, 1:] / M[k, o, :-1]
                    ctx.check(close(np.nan_to_num(g.arr[k, c, o]), l, 1e-7, 1e-9), "co-ldf", lambda: f"{what} factors of {s.kdims[k]} {s.vdims[j]} origin {o}: {g.arr[k, c, o]}, completed triangle gives {l}")
    two = u[[s.vdims[j] for j in order]]
    m = Snap(cl.Chainladder().fit(two).ultimate_.set_backend("numpy"))
    at = [s.odims.index(o) for o in m.odims]
    for c, j in enumerate(order):
        M = P if j == pi[0] else I
        ctx.check(close(m.arr[:, c, :, 0], M[:, at, -1], 1e-7, 1e-7), "co-ultimate", lambda: f"ultimates {m.arr[:, c, :, 0]} for completed {s.vdims[j]} {M[:, at, -1]}")
